#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
CONV = "src/geom/converter.rs"; BND = "src/geom/bounds.rs"; CB = "src/geom/cell_bounds.rs"
PC = "src/geom/point_cloud.rs"; GM = "src/map/grid_map.rs"; NM = "src/map/lidar_noise_model.rs"
OG = "src/map/occupancy_grid_map.rs"; RC = "src/ray_caster.rs"; OX = "src/kitti/oxt_reader.rs"
PR = "src/kitti/point_cloud_reader.rs"; FS = "src/kitti/fs.rs"; MA = "src/math.rs"

prop("G01", "A point belongs to the cell whose centre is nearest on every axis",
 "For every point, offset and positive resolution, the cell coordinate on each axis is (point - offset) / resolution of that axis alone, rounded to the nearest integer with ties going away from zero. The scalar-resolution form, the per-axis-resolution form and a map's own point-to-cell lookup all follow this rule, the map using its current minimum corner and its resolution.",
 ["inputs", "configurations"], "all finite points, offsets and positive resolutions, 2-D and 3-D",
 "the tests convert a few hand-picked points; a wrong axis, sign or rounding for other coordinates is not sampled",
 [CONV, GM], [("cell_coord_from_point_coord", CONV), ("cell_from_point / cell_from_point_n", CONV), ("GridMap::cell_from_point", GM)])
prop("G02", "Cell centres lie at offset + index * resolution and convert back",
 "For every cell, offset and positive resolution, the centre of the cell is offset + index * resolution on each axis separately, so converting a cell's centre back to a cell gives the same cell. The scalar-resolution form, the per-axis-resolution form and a map's own cell-to-point lookup all follow this rule, the map using its current minimum corner and its resolution.",
 ["inputs", "configurations"], "all cells, offsets and positive resolutions, 2-D and 3-D (exact arithmetic)",
 "the tests convert a few hand-picked cells only",
 [CONV, GM], [("point_coord_from_cell_coord", CONV), ("point_from_cell / point_from_cell_n", CONV), ("GridMap::point_from_cell", GM)])
prop("G03", "Box constructors refuse inverted corners and accept every ordered pair",
 "Constructing a box of points or a box of cells from two corners succeeds exactly when the minimum is less than or equal to the maximum on every axis, and then stores both corners unchanged; otherwise, including when a compared coordinate is not a number, it panics. The empty box has both corners at the origin.",
 ["inputs"], "all corner pairs, including equal, inverted on any one axis, and NaN coordinates; 2-D and 3-D",
 "no test passes an inverted or NaN corner, and none checks each axis",
 [BND, CB], [("Bounds::new / Bounds::empty", BND), ("CellBounds::new / CellBounds::empty", CB)])
prop("G04", "Enclosing two boxes gives the smallest box containing both",
 "For every two well-formed boxes, the enclosing box has, on each axis, the smaller of the two minima and the larger of the two maxima, and neither input changes. The one exception is a receiver equal to the empty box, for which the result is exactly the other box.",
 ["inputs"], "all pairs of boxes: disjoint, nested, partially overlapping per axis, empty receiver; 2-D and 3-D",
 "tests cover a few hand-picked pairs; the number of relative orders of the corners over the axes is far larger",
 [BND], [("Bounds::enclosing", BND)])
prop("G05", "Overlapping two boxes gives their exact intersection or the empty box",
 "For every two well-formed boxes, if they overlap on every axis by more than rounding noise the result is, on each axis, the larger of the two minima and the smaller of the two maxima. If they are separated or merely touch on any axis the result is the empty box.",
 ["inputs"], "all pairs of boxes and all per-axis orders of their corners; 2-D and 3-D",
 "tests cover three hand-picked pairs per dimension",
 [BND], [("Bounds::overlapping", BND)])
prop("G06", "Snapping a box to the grid never loses part of it",
 "For every box and positive resolution, the snapped box has on each axis a minimum that is the largest grid multiple not above the original minimum and a maximum that is the smallest grid multiple not below the original maximum; a corner already on a grid line, or beside a non-zero grid line by rounding noise only (a relative 1e-7), counts as on it and stays there. When expansion is requested, a maximum already on a grid line moves up by exactly one resolution, and nothing else changes.",
 ["inputs", "configurations"], "all boxes (negative, positive, on and off grid lines), resolutions, both expand settings; 2-D and 3-D (exact arithmetic)",
 "tests use a handful of boxes and one resolution",
 [BND], [("Bounds::discretized", BND)])
prop("G07", "Rounding a cell box to tiles is aligned, contains the box and is tight",
 "For every cell box and positive tile size, both rounded corners are multiples of the tile size on every axis, the rounded minimum is at most the original minimum and the rounded maximum at least the original maximum. Neither corner moves by a full tile or more, so an aligned corner does not move.",
 ["inputs", "configurations"], "all integer cell coordinates (any sign and remainder) and all positive tile sizes; 2-D and 3-D",
 "tests use a few coordinates and tile sizes; sign and remainder combinations are not covered",
 [CB], [("CellBounds::discretized", CB)])
prop("G08", "Boxes of cells and boxes of points convert corner by corner",
 "Converting a cell box to a point box scales each corner's coordinates by the resolution of their own axis, with no offset; building a box from a size and an offset in cells spans from the offset to offset + size. Converting a point box to a cell box rounds each corner to the nearest cell with no offset, and maps the empty box to the empty cell box.",
 ["inputs", "configurations"], "all boxes, sizes, offsets and positive resolutions, scalar and per-axis, 2-D and 3-D (exact arithmetic)",
 "tests use one or two boxes per function, mostly with equal values on all axes",
 [BND, CB], [("Bounds::from_cell_bounds(_n) / from_size_cells(_n)", BND), ("CellBounds::from_bounds", CB)])
prop("G09", "A cloud's box contains every point of the cloud",
 "For every point cloud, the box it reports contains each of its points on every axis, and extends no further than the points and the origin require. An empty cloud reports the empty box.",
 ["inputs"], "all point clouds of any length, with coordinates of any sign; 2-D and 3-D",
 "one test with two points",
 [PC], [("PointCloud::bounds", PC)])
prop("G10", "A point cloud keeps its points, their order and their number",
 "A cloud built from a slice of points stores every coordinate of every point in order, and iterating over a cloud yields exactly one point per stored column, in order, with its coordinates unchanged. The reported number of points is the number of stored columns.",
 ["inputs"], "all slices of points of any length; 2-D and 3-D",
 "one test with two points whose coordinates are all equal",
 [PC], [("PointCloud::from_points / from_data / points_iter / num_points", PC)])
prop("G11", "Transforming a cloud applies the homogeneous matrix to every point",
 "Transforming a cloud by a 4x4 matrix yields a new cloud with the same number of points, in which each point is the first three coordinates of the matrix times (x, y, z, 1). The original cloud is unchanged.",
 ["inputs"], "all clouds and all 4x4 matrices",
 "no test calls it",
 [PC], [("PointCloud::transform", PC)])
prop("G12", "Approximate box equality compares both corners with the given tolerances",
 "Two boxes are approximately equal exactly when both their minimum corners and their maximum corners are, under the tolerances the caller passed; the defaults are those of single-precision floats.",
 ["inputs"], "all box pairs and tolerances, absolute and relative comparison, 2-D and 3-D",
 "tests only ever compare boxes that are equal",
 [BND], [("AbsDiffEq / RelativeEq for Bounds", BND)])

prop("G13", "Literal macros, copies and exact equality of boxes respect every coordinate",
 "The macros for points, cells and boxes build the value whose coordinates are the operands in the order written (first the minimum, then the maximum corner). A copy of a box has the same corners, and two boxes are equal exactly when all coordinates of both corners are.",
 ["inputs"], "all operands, 2-D and 3-D",
 "the tests use the macros on constants to build their own expectations, so a wrong macro would agree with itself",
 [BND, CB, "src/geom/cell.rs", "src/geom/point.rs"], [("bounds2! / bounds3!", BND), ("cell_bounds2! / cell_bounds3!", CB), ("cell2! / cell3!", "src/geom/cell.rs"), ("point2! / point3!", "src/geom/point.rs")])
prop("M01", "Reading or writing a cell touches exactly that cell, or panics",
 "Reading a cell returns, and writing a cell replaces, the one stored value whose index on every axis equals the cell's coordinate on that axis. A cell with a negative or too large coordinate on any axis makes the call panic; it never reads or writes any value.",
 ["inputs"], "all cells, inside and outside of the map, all map shapes (unequal extents), 2-D and 3-D",
 "tests read and write a few in-range cells of small square maps",
 [GM, "src/geom/cell.rs"], [("GridMap::get / GridMap::set", GM), ("CellToNdIndex::to_ndindex", "src/geom/cell.rs")],
 [("data", "the cell values, one per cell of bounds", GM)])
prop("M02", "A new map has one default-valued cell per cell of its box",
 "A map created for a box has, on each axis, (max - min) / resolution cells rounded to the nearest integer, all holding the given default value, and remembers resolution, box and tile size as given. The default map has no cells, an empty box and the default resolution and tile size; every new map has change tracking off and an empty change log.",
 ["inputs", "configurations"], "all boxes, resolutions, tile sizes and default values, 2-D and 3-D",
 "tests build a few square maps and read few cells",
 [GM], [("GridMapN::new / default / from_ndarray", GM), ("ndarray_with_bounds", GM)])
prop("M03", "Growing a map keeps every stored value at its place in the world",
 "For every map whose box lies on whole cells and every requested box, growing the map leaves the value stored for each previously existing cell readable at the cell that now covers the same place in the world. No stored value is lost, moved or duplicated, on any axis, whichever direction the map grows in.",
 ["inputs", "histories"], "all maps with boxes on whole cells, all requested boxes, any sequence of growth steps, growth in any subset of directions; 2-D and 3-D (exact arithmetic)",
 "two tests grow a small map with one shape",
 [GM], [("expand_bounds", GM)], [("data", "cell values", GM), ("bounds", "world box of data", GM)])
prop("M04", "Growing a map fills new cells with the default and keeps box and storage in step",
 "After growing, every cell that did not exist before holds the given default value, and the stored grid has exactly the cells of the recorded box. Growth changes only the box, the stored values and the change log: resolution, tile size and the tracking flag stay as they were, and if the map already had the box it would grow to, nothing changes at all.",
 ["inputs", "histories"], "all maps, requested boxes and default values; 2-D and 3-D",
 "two tests look at a handful of new cells",
 [GM], [("expand_bounds", GM), ("ndarray_with_bounds", GM)])
prop("M05", "A grown map covers its old box and every cell of the requested box",
 "After growing, the map's box contains its previous box and, on every axis, the cells of all points of the requested box, including points on its border. The grown box lies on whole tiles.",
 ["inputs", "histories"], "all maps and requested boxes, including boxes whose border lies on or between cell centres; 2-D and 3-D (exact arithmetic)",
 "tests request boxes that are far from the tile border",
 [GM, BND, CB], [("expand_bounds", GM)])
prop("M06", "The change log is returned, cleared and appended to faithfully",
 "Appending cells to the change log adds all of them, in order, after those already there; reading it returns a copy of exactly the logged cells and changes nothing; clearing it empties it and changes nothing else. Growing the map makes every logged cell refer to the same place in the world as before, and the tracking flag is only ever changed by setting it.",
 ["inputs", "histories"], "all sequences of appends, reads, clears, flag changes and growth; 2-D and 3-D",
 "no test uses the change log",
 [GM], [("changed_cells / clear_changed_cells / add_changed_cells / set_track_changes", GM), ("expand_bounds", GM)],
 [("changed_cells", "log of cells updated since the last clear", GM), ("track_changes", "whether updates are logged", GM)])
prop("M07", "Cloning a map copies all of its state",
 "A clone of a map has the same values, resolution, box, tile size, tracking flag and change log as the original, in storage of its own.",
 ["inputs", "histories"], "all maps in any state; 2-D and 3-D",
 "no test clones a map",
 [GM], [("Clone for GridMapN", GM)])
prop("M08", "Public type names have the dimension and element type they announce",
 "Every public type alias whose name ends in 2 or 3 (optionally followed by f, i or b) denotes a type of that dimension, with single-precision, 32-bit integer or boolean elements as its letter says; a cell is made of signed integers and a point of single-precision floats.",
 ["programs"], "every public alias of the crate and every program that uses it",
 "the tests use only some of the aliases and a wrong alias still compiles",
 ["src/geom/mod.rs", "src/geom/cell.rs", "src/geom/point.rs", BND, CB, PC, GM, OG], [("type aliases", GM)])
prop("M09", "An occupancy map behaves as the grid map inside it",
 "Every map operation on an occupancy map returns what the same operation on its inner grid map returns and has the same effect on it, and none touches the noise model. A new occupancy map starts empty with the given resolution, tile size and noise model; its default uses the documented default resolution and tile size and the default noise model.",
 ["inputs", "histories"], "all operations and arguments, 2-D and 3-D",
 "no test exercises the delegating operations",
 [OG], [("GridMap for OccupancyGridMapN", OG), ("OccupancyGridMapN::new / default", OG)])

prop("R01", "A ray's cells form an unbroken path from its start cell to its end cell",
 "For every ray, the listed cells start with the cell of the ray's origin and each next cell differs from the one before by one step along one axis, in the direction of the end point. The end cell itself is never listed, and when it is reported it is one such step away from the last listed cell; a ray that starts and ends in the same cell lists nothing and reports that cell.",
 ["inputs"], "all origins, end points, boxes, positive resolutions and ranges; 2-D and 3-D",
 "tests cast a few rays, most of them diagonal or along an axis",
 [RC], [("cast_ray", RC)])
prop("R02", "Every ray terminates and stays between its start and end cell",
 "For every ray, tracing takes at most as many steps as the start and end cell are apart, summed over the axes, and visits no cell outside of the box spanned by those two cells. If it is not cut off by the range limit it therefore always reports the end cell.",
 ["inputs"], "all origins, end points, boxes and positive resolutions, whatever rounding does to the distances between cell borders; 2-D and 3-D",
 "tests cast a few rays on which rounding does no harm; before the repair recorded in this repository, 6% of rays between multiples of half a cell missed their end",
 [RC], [("cast_ray", RC)])
prop("R03", "A ray crosses cell borders in the order of their distance",
 "At every step a ray moves along the axis whose next cell border is nearest to the origin along the ray, where the first border on an axis lies half a cell from the centre of the start cell in the direction of travel and the following ones one resolution apart. Each distance is measured along the ray using that axis's own coordinates.",
 ["inputs"], "all rays, boxes and positive resolutions; 2-D and 3-D (exact arithmetic)",
 "tests sample a few symmetric rays, for which wrong distances still give the right order",
 [RC], [("cast_ray", RC)])
prop("R04", "The range limit cuts a ray at the first cell beyond it, and only there",
 "With a positive range, a ray ends without reporting its end cell at the first cell after the start cell, other than the end cell, whose centre is farther from the origin than the range; that cell is not listed and all cells before it are. A cell at exactly the range is still listed, and a range of zero or less means no limit.",
 ["inputs", "configurations"], "all rays, boxes, resolutions and ranges (positive, zero, negative, infinite); 2-D and 3-D",
 "two tests use one range each",
 [RC], [("cast_ray", RC)])
prop("R05", "Casting a cloud combines all of its rays, with hits winning over misses",
 "Casting a cloud casts one ray from the origin to every point with the given box, resolution and range. The occupied cells are exactly the reported end cells of those rays, and the free cells are exactly the cells listed by at least one ray that are not occupied, so the two sets never share a cell.",
 ["inputs"], "all clouds (any number and order of points, duplicates, rays passing through other rays' end cells); 2-D and 3-D",
 "two tests with a few points",
 [RC], [("cast_rays", RC)])

prop("N01", "A hit or miss moves one cell by the model's step and saturates",
 "Integrating a hit sets the given cell to the smaller of its old value plus the hit log-odds and the maximum log-odds; integrating a miss sets it to the larger of its old value plus the miss log-odds and the minimum log-odds. No other cell and nothing else in the map changes.",
 ["inputs", "histories"], "all cell values, model parameters and cells; 2-D and 3-D",
 "tests apply a few updates with the default parameters",
 [NM], [("LidarNoiseModel::integrate_hit / integrate_miss", NM)])
prop("N02", "A scan updates every free cell once as a miss, every hit cell once as a hit",
 "Integrating a point cloud casts its rays with the map's box after growth, the map's resolution and the model's range, and then applies exactly one miss to every free cell and exactly one hit to every occupied cell. It changes no other cell.",
 ["inputs", "histories"], "all maps, origins, clouds and model parameters; 2-D and 3-D",
 "two tests with two or three points each",
 [NM], [("LidarNoiseModel::integrate_point_cloud", NM)])
prop("N03", "Integrating a scan first grows the map to hold the sensor and every point",
 "Before any cell is read or written, integrating a point cloud grows the map to a box that contains both the sensor origin and all points of the cloud, filling new cells with the model's default value. Every cell the integration touches therefore exists.",
 ["inputs", "histories"], "all maps (including the empty default one), sensor origins inside or outside of the points' box, and clouds; 2-D and 3-D",
 "tests put the origin inside of the points' box",
 [NM], [("LidarNoiseModel::integrate_point_cloud", NM), ("expand_bounds", GM)])
prop("N04", "With tracking on, exactly the updated cells are logged, once each",
 "If change tracking is on, integrating a point cloud appends every cell it updated to the map's change log exactly once; if it is off, the log is not touched. The map after integration holds the same values either way.",
 ["inputs", "histories", "configurations"], "all maps, clouds and both settings of the flag; 2-D and 3-D",
 "no test turns tracking on",
 [NM], [("LidarNoiseModel::integrate_point_cloud", NM)])
prop("N05", "The noise model validates its probabilities and stores their log-odds",
 "Creating a noise model panics if any of its five probabilities is below 0, above 1 or not a number, and otherwise stores the log-odds of each probability in the field of that name and the range unchanged. The default model uses the documented default probabilities and range, each in its own place, and an unknown cell has log-odds zero.",
 ["inputs", "configurations"], "all parameter values including bounds, out-of-range and NaN, each parameter on its own",
 "tests only build the default model",
 [NM], [("LidarNoiseModel::new / default", NM)])
prop("N06", "A cell is occupied exactly when its value is strictly above the threshold",
 "A cell is reported as occupied exactly when the map's value for that cell is strictly greater than the model's occupied threshold in log-odds, and asking does not change the map. The occupancy map's own query gives the same answer using its own grid and model.",
 ["inputs"], "all cell values (below, at and above the threshold), thresholds and cells; 2-D and 3-D",
 "tests ask about a few cells, with values well away from a shifted threshold",
 [NM, OG], [("LidarNoiseModel::occupied", NM), ("OccupancyGridMapN::occupied", OG)])

prop("K01", "A malformed pose record is an error, never a panic",
 "For every input to the pose reader, text that is not valid, has fewer than six space-separated fields, or has a non-numeric value among the first six gives an error, and the reader never panics. A record with more fields than six is accepted and the rest is ignored.",
 ["inputs", "fault_sequences"], "all byte streams and read errors",
 "there are no tests of the readers",
 [OX], [("oxt_reader::read", OX), ("str_to_float", OX)])
prop("K02", "A scan file decodes to its x, y, z triples in order",
 "A scan whose length is not a multiple of 16 bytes gives an error; any other scan gives a cloud with one point per 16 bytes, holding the first three of each four consecutive 32-bit floats in order and dropping the fourth. The reader never panics.",
 ["inputs", "fault_sequences"], "all byte streams (any length and content) and read errors",
 "there are no tests of the readers",
 [PR], [("point_cloud_reader::read", PR)])
prop("K03", "No input/output error is swallowed by the dataset readers",
 "If listing the directory, reading one of its entries, opening a file or reading its contents fails, or a file's contents are malformed, the reader that needed it returns an error instead of a result.",
 ["fault_sequences", "inputs"], "all failures of any single directory, entry, open or read operation at any position",
 "there are no tests of the readers",
 [OX, PR, FS], [("read_from_file / read_from_dir", OX), ("read_from_file / read_from_dir", PR), ("seq_files_in_dir", FS)])
prop("K04", "Directory readers return one result per file, in sorted path order",
 "Listing a directory returns the paths of all its entries in ascending order, and the directory readers read each of them exactly once, in that order, and return one result per file in the same order. As long as standard output can be written, printing progress changes neither the result nor whether the call succeeds.",
 ["inputs", "configurations"], "all directories, file names (including non-UTF-8 ones) and both settings of the progress flag",
 "there are no tests of the readers",
 [OX, PR, FS], [("seq_files_in_dir", FS), ("read_from_dir", OX), ("read_from_dir", PR)])
prop("K05", "All poses of a directory are relative to the first record",
 "Reading a pose without a reference gives a pose at the origin and returns the record's own position as the reference; with a reference, the translation is measured from it and the same reference is returned. Reading a directory therefore uses the first record's position as the reference for all later records.",
 ["inputs", "histories"], "all records and reference positions, all sequences of records",
 "there are no tests of the readers",
 [OX], [("oxt_reader::read", OX), ("read_from_dir", OX)])
prop("K06", "GPS offsets convert to metres east, north and up of the reference",
 "Relative to the reference, x is the longitude difference times the equatorial circumference times the cosine of the reference latitude over 360, y is the latitude difference times the polar circumference over 360, and z is the altitude difference.",
 ["inputs"], "all positions and references (exact arithmetic)",
 "there are no tests of the readers",
 [OX], [("gps_to_meters", OX)])
prop("K07", "A pose record's fields are latitude, longitude, altitude, roll, pitch, yaw",
 "The first three fields of a record are latitude, longitude and altitude and determine the position; the fourth to sixth are roll, pitch and yaw in radians and determine the orientation, whether or not a reference is given. No other field has any influence.",
 ["inputs"], "all records",
 "there are no tests of the readers",
 [OX], [("oxt_reader::read", OX)])

prop("S01", "Log-odds and probability conversions are the standard mutual inverses",
 "The log-odds of a probability p is ln(p / (1 - p)), and the probability of log-odds l is 1 - 1 / (1 + e^l), so converting either way and back gives the original value.",
 ["inputs"], "all probabilities in (0, 1) and all log-odds (exact arithmetic)",
 "tests compare seven sample values each",
 [MA], [("logodds_from_probability / probability_from_logodds", MA)])
prop("S02", "The sign function is three-valued and acts on every coordinate",
 "The sign of a number is 0 for zero (of either sign), 1 for any positive number and -1 for any negative number, including infinities. The sign of a vector is the sign of each of its coordinates, in place.",
 ["inputs"], "all non-NaN floats; all vectors, 2-D and 3-D",
 "tests use five sample values and no vector",
 [MA, "src/geom/vector.rs"], [("f32_signum", MA), ("vector::signum", "src/geom/vector.rs")])

prop("W01", "Results depend only on the arguments",
 "No library operation reads the clock, the environment, randomness (other than the seed of its hash sets) or state left behind by an earlier call, and none writes any state outside of its arguments. Only the dataset readers touch files, they only read them, and they print only when asked to.",
 ["programs", "histories"], "every public operation, everything it can call, and all histories of calls",
 "tests cannot show the absence of hidden inputs and effects",
 ["src/lib.rs"], [("the whole crate", "src/lib.rs")])
prop("W02", "Queries leave maps, models, boxes and clouds untouched",
 "An operation that takes a map, model, box, cloud, cell or point by shared reference never changes it, so repeating a query gives the same answer until a mutating operation is called.",
 ["inputs", "histories"], "every public operation that takes shared references, and every type reachable from them",
 "tests cannot show the absence of interior mutation",
 ["src/lib.rs"], [("the whole crate", "src/lib.rs")])
VZ = "viz/src/bin/draw_occupancy_grid.rs"
prop("V01", "The viewer's two threads cannot deadlock, overlap or stall",
 "At most one integrating thread runs at a time: a frame starts one only after it has found the finished flag set, and it clears the flag before it starts the thread. The thread sets the flag when it is done, on every path, after taking its last lock. A frame takes locks only when no thread is running, no lock is taken twice, every lock is released, and the flag is set before the first frame; so drawing never waits for a scan and every scan gets its turn.",
 ["schedules"], "all interleavings of the drawing and the integrating thread, all contents of maps and lists",
 "the viewer has no tests, and a test samples a few schedules",
 [VZ], [("integrate_next_pointcloud", VZ), ("GridUpdater", VZ)])
prop("V02", "The viewer shows exactly the cells that are occupied",
 "The cells that a scan changes are handed to the drawing thread exactly once, all of them, and their log in the map is then cleared. The next frame after the scan is done keeps the centre of every handed cell that is occupied and drops every handed cell that is not, under a key that stays the same when the map grows.",
 ["schedules", "histories"], "all sequences of scans, including those after which the map's cells are numbered differently",
 "the viewer has no tests",
 [VZ], [("integrate_next_pointcloud", VZ)])
prop("V03", "The viewer integrates each scan from the place it was taken, in turn",
 "The viewer reads the poses from oxts/data and the clouds from velodyne_points/data, refuses different numbers of them, and moves each cloud by the pose of the same index. The scans are integrated one after another in the order of their files, beginning with the first and again from the first after the last, each with the translation of its own pose as the origin. Frames in which no scan is started do not advance.",
 ["inputs", "histories"], "all numbers of scans, all poses and clouds, any number of frames",
 "the viewer has no tests",
 [VZ], [("main", VZ), ("integrate_next_pointcloud", VZ)])
prop("V04", "Every frame draws all kept cells and the axes of the next pose",
 "Every frame draws one point at the centre of each occupied cell kept, including those handed over in this frame, and three lines of length one from the position of the pose of the scan that is next: the pose's x axis in red, its y axis in green and its z axis in blue.",
 ["inputs", "histories"], "all sets of kept cells and all poses (exact arithmetic)",
 "the viewer has no tests",
 [VZ], [("step", VZ), ("draw_frame_marker", VZ)])
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P: assert len(p["title"]) <= 80, (len(p["title"]), p["title"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
