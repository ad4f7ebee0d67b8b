"""Writes properties.jsonl (kept as a generator so that the long lines stay reviewable)."""
import json, os
G = "geotiepoints/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [G + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Each MODIS scan is interpolated from its own tie points only",
     "For every MODIS conversion offered, the fine-resolution locations of one instrument scan depend only on the tie points of that scan. "
     "Interpolating any sequence of scans yields, scan by scan and in order, what interpolating each scan on its own yields, whatever the neighbouring scans contain (other regions, poles, antimeridian and, in the angle-based and lon/lat-only conversions, missing values) and however many there are.",
     ["inputs", "histories"], "every sequence of scans over every conversion, with any neighbour content",
     "The tests interpolate one two-scan granule of one orbit; scratch buffers reused from scan to scan can only leak for particular sequences.",
     ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "interpolator.py", "__init__.py"],
     [("per-scan slices and reused scratch arrays", "MODISInterpolator._interpolate_lons_lats"),
      ("per-scan loop", "_simple_modis_interpolator.interpolate_geolocation_cartesian"),
      ("chunk-wise border rows", "Interpolator._fill_row_borders")],
     [("tmp_fine_a..d, coarse_xyz, fine_xyz, a_track, a_scan", "scratch arrays shared by all scans of a call", "MODISInterpolator.interpolate")],
     ["returned lon/lat arrays"])

prop("C02", "Chunked or labelled MODIS input gives the same result as plain arrays",
     "The angle-based and the lon/lat-only MODIS conversions return, for dask arrays in any chunking and for labelled (xarray) arrays with in-memory or lazy data, the same values as for plain in-memory arrays. "
     "The lazy result announces the shape, chunks, dtype and dimension names that the computed result, and each of its blocks, actually has. "
     "This includes chunks that cut through scans or columns, chunks smaller than a scan, and arrays of one call chunked differently.",
     ["inputs", "configurations"], "every chunking of every argument, every container type, every conversion",
     "The tests use a single chunk (chunks=4096 on a 20-row granule), so no chunk boundary is ever exercised.",
     ["_modis_utils.pyx", "modisinterpolator.py", "simple_modis_interpolator.py"],
     [("scanline_mapblocks", "_modis_utils.scanline_mapblocks"), ("rechunking to whole scans", "_modis_utils._rechunk_dask_arrays_if_needed"),
      ("declared output chunks", "_modis_utils._call_map_blocks_interp")],
     observe=["returned dask/xarray objects", "their computed blocks"])

prop("C03", "Lazy grid and spline interpolation equals eager interpolation",
     "For the grid and spline interpolators (single array, several arrays, geographic), asking for a chunked result gives a lazy array whose computed values, shape and dtype equal those of the immediate result for the same target points and options, and whose chunks are the ones asked for. "
     "This holds for every chunk specification and for every set of target points, not only consecutive integers from zero.",
     ["inputs", "configurations"], "every chunk specification, target point vectors, interpolation options",
     "The tests only ever target 0,1,2,... with one or two chunk sizes, so nothing distinguishes target points from array indices.",
     ["interpolator.py", "geointerpolator.py"],
     [("dask graph construction", "AbstractSingleInterpolator.interpolate_dask"), ("chunk slices", "_enumerate_chunk_slices")],
     observe=["interpolate(..., chunks=...)", "interpolate_to_shape(..., chunks=...)"])

prop("C04", "Lazy results do not depend on execution order or on what else is computed",
     "Asking for a lazy result computes nothing; when it is computed, every admissible execution order of its tasks, including re-running a task, gives the same values. "
     "Computing several lazy results together, whatever interpolators, options or inputs they come from, gives each of them the value it has when computed alone.",
     ["schedules", "histories"], "every execution order of the task graphs and every pair of lazy results computed together",
     "The tests compute one result at a time with the default scheduler; key collisions and order dependence show only when graphs are merged or tasks reordered.",
     ["interpolator.py", "_modis_utils.pyx", "geointerpolator.py"],
     [("task keys", "AbstractSingleInterpolator.interpolate_dask"), ("map_blocks call", "_modis_utils._call_map_blocks_interp")],
     observe=["dask.compute of one and of several results"])

prop("C05", "Using several worker processes does not change the result",
     "The 1 km to 500 m and 1 km to 250 m functions return the same arrays whatever number of worker processes is asked for, whatever the number of scans, and in whatever order the workers finish. "
     "The lines at which a swath is split for parallel work are always whole-scan boundaries strictly inside the swath, increasing, and splitting there loses and duplicates no line.",
     ["schedules", "inputs", "configurations"], "every number of scans and cores, every completion order of the workers",
     "The tests use one swath with one core and with four, and one call of the split helper; completion order is left to the operating system.",
     ["__init__.py"],
     [("scene splits", "get_scene_splits"), ("ordered collection of worker results", "_multi")],
     observe=["modis1kmto500m/modis1kmto250m(cores=n)", "get_scene_splits"])

prop("C06", "Concurrent calls in several threads do not disturb each other",
     "The compiled interpolators run without the interpreter lock, and lazy results are evaluated in several threads at once. "
     "Any number of concurrent calls, on the same or different inputs, the same or different conversions, each return what they return when running alone, for every interleaving of the threads.",
     ["schedules"], "every interleaving of two calls up to one preemption at any basic block of the compiled code, and every interleaving at Python-level hand-over points",
     "The tests never run two calls at once, and an operating-system schedule samples only a few interleavings.",
     ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "multilinear_cython.pyx", "multilinear.py", "interpolator.py", "geointerpolator.py"],
     [("per-call scratch arrays", "MODISInterpolator.interpolate"), ("nogil sections", "_simple_modis_interpolator.interpolate_geolocation_cartesian"),
      ("nogil loop", "multilinear_cython.multilinear_interpolation")],
     observe=["results of overlapping calls"])

prop("C07", "Interpolation returns the tie point value where a target point is a tie point",
     "Whenever a target position coincides with a tie point, the interpolated value there is that tie point's value, and the interpolated location is that tie point's location, up to rounding. "
     "This holds for every interpolator of the package (generic, geographic, grid, spline, VII, multilinear, basic, and the MODIS and AVHRR presets where fine pixels coincide with tie points), every tie-point spacing and every interpolation order, at any place on Earth.",
     ["inputs", "configurations"], "every tie grid, order and location up to the bounds",
     "The tests compare a handful of fixed grids with stored numbers to a loose tolerance.",
     ["interpolator.py", "geointerpolator.py", "viiinterpolator.py", "multilinear_cython.pyx", "basic_interpolator.py", "_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "__init__.py"],
     [("spline interpolation with s=0", "Interpolator._interp, _interp1d"), ("pixel coordinates", "MODISInterpolator._get_coords_5km, _get_coords_1km"),
      ("coordinate arrays", "_compute_yx_coordinate_arrays")],
     observe=["interpolate results at tie positions"])

prop("C08", "Generic interpolators compute the interpolant of the order asked for",
     "Between tie points the generic, grid, spline and basic interpolators return the piecewise-linear interpolant in a dimension of order one, and reproduce exactly every polynomial field of degree up to the order asked for, rows and columns each with their own order. "
     "The result is linear in the tie-point data, has the shape of the target grid, treats several data arrays of one call independently, and does not depend on whether the tie points are integers or floats.",
     ["inputs", "configurations"], "every tie grid, target grid, order pair and data basis up to the bounds",
     "The tests check two fixed data sets per class; mixing up axes or orders can cancel on them.",
     ["interpolator.py", "basic_interpolator.py"],
     [("RectBivariateSpline / splrep set-up", "Interpolator._interp, _interp1d"), ("scipy interpolators", "SingleGridInterpolator, SingleSplineInterpolator"),
      ("reindex and interpolate", "BasicSatelliteInterpolator._interp")],
     observe=["interpolate()"])

prop("C09", "Border filling extrapolates linearly inside each chunk and only where needed",
     "Filling the borders extends the tie points to the first and last target column, and to the first and last target row of every chunk, by linear extrapolation of the two outermost tie points of that chunk, and leaves existing tie points as they were. "
     "Where tie points already reach the border nothing is added; every tie point is used in exactly one chunk; the result does not depend on the unit in which row positions are expressed nor on the order in which the two dimensions are filled.",
     ["inputs", "configurations", "histories"], "every tie/target grid, chunk size and fill order up to the bounds",
     "The tests fill one 4x5 grid with stored expected values, always in normalised units and with tie points away from the border.",
     ["interpolator.py"],
     [("column borders", "Interpolator._fill_col_borders"), ("row borders per chunk", "Interpolator._fill_row_borders"), ("linear extrapolation", "_linear_extrapolate")],
     observe=["interpolate() after fill_borders()"])

prop("C10", "VII pixels are the bilinear interpolation of their own scan's tie points",
     "For every number of scans, tie points per scan, tie points across and sub-sampling factor, VII interpolation returns per scan exactly the pixels between that scan's first and last tie row, in order, each the bilinear interpolation of its four surrounding tie points, for in-memory and chunked data alike. "
     "Geographic interpolation interpolates longitude and latitude directly unless a latitude exceeds the threshold in magnitude or longitudes span more than 180 degrees, in which case it interpolates on the sphere; inconsistent dimensions or incomplete scans are rejected.",
     ["inputs", "configurations"], "every shape, factor and chunking up to the bounds; data basis; latitudes and longitude spans on both sides of the thresholds",
     "The tests use one shape (2 scans of 3x4, factor 2), in memory, and three fields.",
     ["viiinterpolator.py"],
     [("pixel grids without inter-scan points", "tie_points_interpolation"), ("choice of coordinates", "tie_points_geo_interpolation")],
     observe=["tie_points_interpolation", "tie_points_geo_interpolation"])

prop("C11", "Multilinear interpolation is the multilinear interpolant of the grid values",
     "In one to four dimensions, for every grid size, boundary and number of value rows, the multilinear interpolator returns at each query point the multilinear interpolation of the corner values of the grid cell containing it, and outside the grid the extension of the nearest border cell, however far outside. "
     "The advertised grid enumerates the nodes with the last index varying fastest and each value row is interpolated independently; the requested precision is used.",
     ["inputs", "configurations"], "every grid shape, value basis and query position class up to the bounds, both precisions",
     "The single test covers two dimensions, one grid and interior points only.",
     ["multilinear.py", "multilinear_cython.pyx"],
     [("cell search and weights", "multilinear_interpolation_1d..4d"), ("grid enumeration", "mlinspace")],
     observe=["MultilinearInterpolator.__call__", "MultilinearInterpolator.grid"])

prop("C12", "Interpolator objects give history-independent answers",
     "What an interpolator object returns depends only on how it was constructed and on the configuration calls made on it (filled borders, values set last), never on how often or in which order it was queried before, nor on other interpolator objects alive at the same time. "
     "Earlier results are not changed by later calls, and querying does not change the tie points or grid the object was given.",
     ["histories"], "every operation sequence up to a depth over several live objects",
     "The tests call each object once; cached or shared state shows only across call sequences and several instances.",
     ["interpolator.py", "geointerpolator.py", "multilinear.py", "basic_interpolator.py"],
     [("lazily built grid", "MultilinearInterpolator.grid"), ("result list", "Interpolator.new_data"), ("stored tie data", "Interpolator.tie_data")],
     [("__grid__", "cached grid", "MultilinearInterpolator"), ("tie_data,row_indices,col_indices,new_data", "mutable configuration", "Interpolator")],
     ["return values along call sequences"])

prop("C13", "Nothing special happens at the antimeridian, the prime meridian or the poles",
     "All interpolation done on the sphere is independent of the choice of meridian and of hemisphere: shifting every tie-point longitude by a constant shifts the result by the same constant (modulo 360 degrees), expressing longitudes as 0..360 or -180..180 does not matter, and mirroring all latitudes mirrors the result. "
     "Tie points on both sides of the antimeridian or around a pole give locations between them, with finite longitudes in [-180, 180] and latitudes in [-90, 90].",
     ["inputs"], "every longitude shift of a lattice, every tie-point pattern of a location alphabet including poles, seams and exactly symmetric pairs",
     "The tests use one granule away from the seams plus one shifted copy; exact symmetries (y = 0, x = y = 0) are measure-zero for sampled data.",
     ["geointerpolator.py", "viiinterpolator.py", "_modis_utils.pyx"],
     [("cartesian to geographic conversion", "xyz2lonlat, _xyz2lonlat")],
     observe=["all geographic interpolators"])

prop("C14", "Geographic and Cartesian conversions are inverse to each other",
     "Converting any longitude and latitude to Cartesian coordinates and back gives the same place on Earth, over the whole globe and for every setting of the latitude method and its threshold; interpolating tie points that all lie at one place gives that place. "
     "All the conversions in the package (generic, VII, compiled MODIS) agree with each other on the location, and the Cartesian coordinates lie on the sphere of the stated radius.",
     ["inputs", "configurations"], "every lon/lat of a lattice including poles, seams and latitude-threshold neighbours; every threshold and method setting",
     "The tests never call the conversions directly; only a few mid-latitude places go through them.",
     ["geointerpolator.py", "viiinterpolator.py", "_modis_utils.pyx"],
     [("lonlat2xyz/xyz2lonlat", "geointerpolator.py"), ("_lonlat2xyz/_xyz2lonlat", "viiinterpolator.py"), ("lonlat2xyz/xyz2lonlat", "_modis_utils.pyx")],
     observe=["lonlat2xyz, xyz2lonlat", "constant tie fields through the interpolators"])

prop("C15", "Lon/lat-only MODIS interpolation is per-scan bilinear on the sphere",
     "The lon/lat-only 1 km to 500 m and 250 m conversions place each fine pixel at the bilinear interpolation, in 3D Cartesian space within the scan, of its surrounding tie points, with fine columns starting at the first tie column and fine rows centred on the tie rows. "
     "The outermost fine rows of each scan and the columns beyond the last tie column are linear extrapolations; this holds for every swath width of at least two columns.",
     ["inputs", "configurations"], "every tie-point basis position in a scan, widths and both resolutions up to the bounds",
     "The tests compare one granule with a tolerance of 16 to 27 m and full width only.",
     ["_simple_modis_interpolator.pyx", "simple_modis_interpolator.py"],
     [("coordinates", "_compute_yx_coordinate_arrays"), ("edge extrapolation", "_extrapolate_xyz_rightmost_columns, _interpolate_xyz_250, _interpolate_xyz_500")],
     observe=["simple_modis_interpolator.modis_1km_to_250m/500m"])

prop("C16", "Angle-based MODIS interpolation follows the published tie-point zone scheme",
     "The sensor-zenith-based MODIS conversions (1 km and 5 km input; 1 km, 500 m and 250 m output; 270 and 271 tie columns) place each fine pixel by the published CVIIRS expansion/alignment scheme from the four tie points and the two zenith angles of its tie-point cell, with edge pixels extrapolated from the nearest cell. "
     "Fine pixels sit at the right fraction of the cell for every output resolution, and equal, opposite or zero zenith angles at neighbouring tie points never produce missing values.",
     ["inputs", "configurations"], "every cell position of a scan, all zenith-angle pairs of an alphabet, all resolutions and widths",
     "The tests compare one granule, with tolerances of up to 25 km for 5 km input, and one symmetric-angle case.",
     ["_modis_interpolator.pyx", "modisinterpolator.py"],
     [("expansion and alignment", "_compute_expansion_alignment"), ("cell coordinates", "_get_coords_1km, _get_coords_5km"), ("cell expansion", "_expand_tiepoint_array*")],
     observe=["modisinterpolator.modis_*"])

prop("C17", "Ill-formed input is rejected instead of producing a result",
     "Input that does not satisfy an interpolator's requirements - incomplete scans, unsupported widths or resolutions, arrays of one call with incompatible shapes, the wrong number of dimensions or arguments, grids and values of different sizes, multilinear grids with fewer than two points along a dimension or more than four dimensions, unknown border dimensions - raises an exception, for plain and for lazy arrays alike. "
     "No such call returns an array or damages memory.",
     ["inputs", "configurations"], "every combination of wrong shapes, widths, scan counts, argument counts around the valid ones, up to the bounds",
     "The tests try four invalid inputs; the compiled code has bounds checks switched off, so others silently read or write foreign memory.",
     ["_modis_utils.pyx", "_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "multilinear.py", "multilinear_cython.pyx", "interpolator.py", "geointerpolator.py", "viiinterpolator.py"],
     [("input checks", "_modis_utils.scanline_mapblocks"), ("width check", "_modis_interpolator.interpolate"), ("dimension check", "multilinear_interpolation"), ("argument count", "geointerpolator.to_xyz")],
     observe=["exceptions"])

prop("C18", "Results depend on input values only, and inputs are left untouched",
     "No function of the package modifies the arrays it is given, and none returns memory shared with its inputs or with another result. "
     "The result is the same for every memory layout of the same values (C or Fortran order, strided or reversed views, read-only arrays), and the floating-point precision of angle-based and lon/lat-only MODIS, grid, spline and multilinear results is that of the input.",
     ["inputs", "configurations", "histories"], "every memory layout and precision of every array argument of every function",
     "The tests pass freshly made contiguous writable arrays and never look at them again.",
     ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "multilinear.py", "multilinear_cython.pyx", "interpolator.py", "geointerpolator.py", "viiinterpolator.py", "basic_interpolator.py", "__init__.py"],
     [("contiguous copies", "np.ascontiguousarray calls in the .pyx files"), ("dtype preservation", "interpolate_numpy")],
     observe=["inputs after the call", "results for different layouts"])

prop("C19", "Every output element is determined by the inputs",
     "Every element of every result is computed from the inputs: none depends on the previous content of freshly allocated memory, on data outside the input arrays, or on earlier calls. "
     "Repeating a call, in a fresh process or after any other calls, gives the same result.",
     ["inputs", "histories", "configurations"], "every shape configuration of every function under every initial memory content of an alphabet and every preceding call",
     "Uninitialised memory usually looks plausible or is zero in a fresh test process, and out-of-bounds reads usually succeed.",
     ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "multilinear_cython.pyx", "interpolator.py"],
     [("np.empty allocations", "MODISInterpolator.interpolate, interpolate_geolocation_cartesian, multilinear_interpolation, Interpolator._interp1d"),
      ("index arithmetic without bounds checks", "_expand_tiepoint_array*")],
     observe=["results under different allocator contents", "bounds-checked build"])

prop("C20", "A missing tie point only affects its neighbourhood",
     "In the local (bilinear and tie-point-zone) interpolators, changing or invalidating one tie point changes the result only at target points within the tie-point cells that touch it, or that are extrapolated from those cells. "
     "All other target points keep their value.",
     ["inputs"], "every tie-point position of a scan or grid, every conversion",
     "The tests contain no missing data in tie points, and one granule cannot separate the influence of individual tie points.",
     ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "viiinterpolator.py", "multilinear_cython.pyx", "interpolator.py"],
     [("cell corner look-up", "_compute_fine_xyz, _expand_tiepoint_array*"), ("order-1 map_coordinates", "_call_map_coordinates")],
     observe=["difference between two results"])

prop("C21", "The sensor presets place pixels on the documented sensor grids",
     "The AVHRR 20 km to 1 km and the MODIS 5 km to 1 km and 1 km to 500 m and 250 m presets, and the generic 5 km to 1 km one, use the tie-point and pixel positions of the instrument. "
     "Along track the result is linear within each scan and continued linearly to its first and last line; across track it is the cubic spline through the tie points after linear continuation to the swath edges. "
     "So data that vary linearly with pixel position are reproduced at every fine pixel, and cubic variation across track away from the continued edges. "
     "Output has the full swath width and the row count multiplied by the resolution ratio.",
     ["inputs", "configurations"], "every number of scans up to the bound, every basis field, every preset",
     "The tests compare two presets with one granule at 0.05 degree (about 5 km) tolerance; the AVHRR, 500 m and generic presets are not tested at all.",
     ["__init__.py", "interpolator.py"],
     [("pixel and tie positions", "metop20kmto1km, modis5kmto1km, modis1kmto500m, modis1kmto250m, generic_modis5kmto1km"), ("borders", "Interpolator.fill_borders")],
     observe=["preset results"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
