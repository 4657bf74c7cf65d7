COMMON = (
    " Trusted: NumPy/dask/xarray primitives, the hand-written reference model"
    " and the comparison code; says nothing about sizes or values outside the"
    " stated bounds."
)
BFS = "explicit-state breadth-first exploration of operation histories on the real code against a reference model"
ENUM = "exhaustive small-scope state enumeration of the real code against a reference model"

prop("C01", "Null-aware arithmetic, comparison and ufunc algebra",
     "Applying any supported NumPy ufunc or Python operator to rasters on the same grid (or a raster and a number or broadcastable array) gives, in every cell that is valid in all raster operands, exactly the value and dtype NumPy gives for those cell values (Python ints and floats acting as 64-bit numbers), and gives a null cell, holding the result's null value, exactly where any raster operand is null. The result has a null value (the default for its dtype) if and only if an operand has one, keeps the grid, CRS and band numbering, and the operands are unchanged (in-place operators update only the left object).",
     ["inputs", "programs", "configurations"],
     "every ufunc/operator x operand dtype x masked/unmasked x null value x chunking x operand kind (raster, scalar, array, bandwise), for all cell-value combinations of a small alphabet with extremes, and all short expressions",
     "tests/test_raster.py does not even collect here; elsewhere arithmetic is touched only with a few dtypes and values, so most (operator, dtype, null) combinations are never executed",
     ["raster.py", "masking.py", "dtypes.py"],
     [("ufunc application and mask merge", "raster.py"), ("default null values", "masking.py")],
     state=[("mask", "boolean array, True where null", "Raster.mask"), ("null_value", "sentinel of null cells", "Raster.null_value")],
     observe=["Raster.data", "Raster.mask", "Raster.null_value"],
     technique=ENUM + " (all operator x dtype x null-state cells)",
     note="Exhaustive over the listed operators, dtype pairs and null states with a 2-5 value alphabet per dtype and all depth-3 expressions." + COMMON)

prop("C02", "Raster state invariants over every operation history",
     "After any sequence of null, dtype, band, mask, chunk, crs and copy operations, a raster's data, mask, null value, dtype, band numbers (1..N), coordinates (x increasing, y decreasing) and CRS are exactly those obtained by applying each operation's documented meaning in order: the mask is tied to the presence of a null value, masked cells hold the null value, the null value is representable in the dtype (the dtype is promoted when needed), and valid cells keep their values. No operation changes the raster it is called on.",
     ["histories", "inputs"],
     "all operation sequences up to a depth bound from several initial rasters (masked, unmasked, integer, float, bool, NaN null value)",
     "tests apply single operations; the interaction of null value changes, casts and masks along a history is a state space no sample covers",
     ["raster.py", "masking.py", "dtypes.py", "general.py"],
     [("astype/set_null_value/set_null/burn_mask/where/get_bands", "raster.py"), ("null reconciliation", "masking.py")],
     technique=BFS,
     note="Breadth-first search with state hashing over the real Raster API up to the stated depth; each transition compared with the model and all invariants evaluated in every state." + COMMON)

prop("C03", "Results do not depend on how rasters are chunked",
     "For every operation, the computed values, mask, null value, dtype, grid and table results are the same for every way of splitting the input rasters into y/x chunks, including when several inputs are chunked differently from each other.",
     ["configurations", "inputs"],
     "every operation in the catalogue x every composition of the y and x extents into chunks",
     "tests use one or two chunk layouts per operation; off-by-one errors at block borders only show for particular layouts",
     ["blocks.py", "focal.py", "surface.py", "general.py", "_mosaic.py", "_padding.py", "rasterize.py", "zonal.py", "distance/proximity.py", "clipping.py", "raster.py"],
     [("dask map_blocks / map_overlap wrappers", "blocks.py")],
     technique="exhaustive enumeration of all chunk layouts for every catalogued operation, differential against the single-chunk execution",
     note="Complete over all y/x chunk compositions of the small grids listed in the evidence, for each catalogued call." + COMMON)

prop("C04", "Lazy, pure and independent of task execution order",
     "Building an operation reads no cell values of its lazy inputs unless documented, and computing results gives the same values for every order in which the scheduler may run the tasks, because no task ever modifies another task's input or output. Neither building nor computing any operation changes the input rasters, their source arrays or files, or arguments (lists, dicts, arrays, dataframes) supplied by the caller.",
     ["schedules", "programs"],
     "all task orders up to commutation (checked by a controlled scheduler that detects every dependence between tasks) for each operation of the catalogue",
     "tests run with one scheduler and one order, and look at outputs, not at whether a shared block was modified on the way",
     ["raster.py", "blocks.py", "general.py", "focal.py", "zonal.py", "io.py", "rasterize.py", "clipping.py", "distance/cost_distance.py"],
     [("dask graphs of every operation", "raster.py"), ("polygonize block task", "raster.py")],
     technique="controlled dask scheduler: partial-order exploration of task orders of the real graphs with conflict (mutation) detection",
     note="Every task of every graph is executed with write detection on all its inputs, so independence of tasks is established per graph; orders are then explored exhaustively for small graphs and by adversarial orders (DFS, BFS, reversed) for larger ones." + COMMON)

prop("C05", "Reductions over a raster use exactly the valid cells",
     "all, any, max, mean, min, prod, std, sum and var of a raster equal the NumPy reduction over exactly its non-null cells in all bands, for every dtype, null pattern and chunking, and do not change the raster.",
     ["inputs", "configurations"],
     "every content of a small raster over a value alphabet x every null mask x every reduction x dtype x chunking",
     "the module with these tests does not collect here; null patterns and dtypes are sampled",
     ["raster.py"], [("injected reductions", "raster.py")], technique=ENUM,
     note="All masks of a small grid x dtypes x reductions x chunkings." + COMMON)

prop("C06", "Saving and reopening a raster preserves it",
     "Saving a raster to a GeoTIFF or COG with any supported options and opening the file again gives the same grid, CRS, band count, null mask and valid cell values, with the saved null value (or the replacement asked for) as null value; the dtype is preserved except for the documented bool and int64 substitutions. save_chunks writes one such file per chunk, with documented names, that together cover the raster exactly.",
     ["inputs", "configurations"],
     "dtype x null state x null value x driver x tiling/blocksize/compression/predictor/overview options x chunking x band count",
     "tests write a few combinations and check mostly metadata; interactions (e.g. bool with mask as COG) are not enumerated",
     ["io.py", "raster.py"], [("write_raster", "io.py"), ("Raster.save / save_chunks", "raster.py")], technique=ENUM,
     note="Exhaustive cross product of the listed options on small rasters, real files in a scratch directory." + COMMON)

prop("C07", "A failing save never leaves stray or misleading output",
     "If computing or writing a raster fails at any point, save raises, leaves no temporary files behind, leaves the source raster usable and any unrelated or pre-existing source file untouched, and a later save of the same raster succeeds with correct contents. A save or save_chunks that returns has written every block.",
     ["fault_sequences", "crash_points"],
     "an injected failure at every task execution and every intercepted file operation of the write path, for each driver and chunk layout",
     "no test injects a failure into the write path",
     ["io.py", "raster.py"], [("temporary file staging for COG", "io.py"), ("save_chunks", "raster.py")],
     technique="exhaustive fault-point enumeration of the real write path (fail at the k-th task / file call, for every k)",
     level="fault_enumeration",
     note="Every fault point reached by a fault-free run is failed once, for each configuration." + COMMON)

prop("C08", "Block mapping hands each function exactly its blocks",
     "map_blocks, geo_map_blocks, map_overlap and geo_map_overlap call the function on aligned blocks of all input rasters (chunk layouts reconciled to the first raster, overlap blocks extended by the requested depth with the requested boundary), with masks, null values, block ids and georeferencing that match the block's true location, and assemble the returned blocks into a raster on the same grid whose null mask follows the documented rule (null value in the output, or the returned mask). A block-local function therefore gives the same raster as applying it to the whole array.",
     ["inputs", "configurations"],
     "all chunk layouts x overlap depths x boundary modes x number of inputs x opt-in arguments x output options on small rasters",
     "tests check representative layouts only; boundary and alignment errors depend on depth, layout and position",
     ["blocks.py"], [("block wrappers", "blocks.py"), ("chunk alignment", "blocks.py")], technique=ENUM,
     note="Complete over the chunk layouts, depths and boundary modes listed." + COMMON)

prop("C09", "Block georeferencing tiles the grid and composes exactly",
     "The block infos of a raster partition its grid: each describes exactly its chunk's rows, columns, coordinates, affine and bounds, and together they cover every cell once. Padding, shifting and any sequence of such adjustments of a block info yields exactly the window obtained by index arithmetic on the parent grid, never mutating the original.",
     ["histories", "configurations"],
     "all chunk layouts, and all sequences of pad/shift operations up to a depth bound",
     "tests check a few block infos; composition of adjustments is a state space",
     ["blocks.py"], [("GeoBlockInfo", "blocks.py")], technique=BFS,
     note="Breadth-first search over pad/shift sequences from every block of every layout." + COMMON)

prop("C10", "Focal statistics equal the statistic of each neighbourhood",
     "For every cell, focal statistics (asm, entropy, max, mean, median, min, mode, std, sum, unique, var) equal that statistic over exactly the valid cells inside the window (rectangle, circle or annulus) centred on the cell and clipped at the raster edge, per band; the null cells of the result follow ignore_null, and windows have the documented shape.",
     ["inputs", "configurations"],
     "every neighbourhood content over a small alphabet including null x window shape x statistic x dtype x chunking",
     "tests use one random raster per statistic; ties, all-null windows, edges and even windows need specific contents",
     ["focal.py", "stat_common.py"], [("focal kernels", "focal.py"), ("nan statistics", "stat_common.py")], technique=ENUM,
     note="Rasters that contain every small-window pattern over the alphabet, all edges, all windows up to the bound." + COMMON)

prop("C11", "Correlation and convolution follow the discrete definition",
     "correlate and convolve give, at each valid cell, the kernel-weighted sum over the neighbourhood with the requested edge treatment, skipping null cells; null cells stay null, and convolve equals correlate with the kernel rotated by 180 degrees. This holds for every kernel shape, edge mode, null pattern and chunk layout.",
     ["inputs", "configurations"],
     "kernel shapes (odd and even) x edge modes x null patterns x chunk layouts",
     "tests use a few odd kernels and layouts",
     ["focal.py"], [("correlate/convolve", "focal.py")], technique=ENUM,
     note="Complete over kernel shapes up to the bound, all edge modes, all single-cell and pairwise null patterns and chunk layouts." + COMMON)

prop("C12", "Surface derivatives match their published formulas",
     "slope, aspect, curvature, hillshade, northing, easting, surface area and TPI equal, at every cell whose neighbourhood is valid, the documented formula applied to the 3x3 (or annulus) neighbourhood and cell size; cells on the raster edge or touching null cells in the neighbourhood are null, for every resolution, dtype and chunking.",
     ["inputs", "configurations"],
     "every 3x3 neighbourhood over a small elevation alphabet (flat, ridges, nulls) x resolution x options",
     "tests/test_surface.py does not collect here, so nothing at all exercises these kernels",
     ["surface.py"], [("surface kernels", "surface.py")], technique=ENUM,
     note="All 3x3 neighbourhood patterns over the alphabet, isotropic and anisotropic cells, all null positions." + COMMON)

prop("C13", "Local statistics combine bands cell by cell",
     "Each local statistic (asm, entropy, argmin/minband, argmax/maxband, max, mean, median, min, mode, std, sum, unique, var) over the bands of a raster equals the statistic of the valid band values of that cell, ties resolved as documented; a cell is null exactly when it is null in every band, and the result dtype can hold the value.",
     ["inputs", "configurations"],
     "every band vector over a small alphabet including null x statistic x dtype x chunking",
     "tests compare a random raster; ties and partially null vectors are sampled",
     ["general.py", "stat_common.py"], [("local_stats", "general.py")], technique=ENUM,
     note="All band vectors of length <= bound over the alphabet." + COMMON)

prop("C14", "Aggregation summarises exactly the cells of each block",
     "aggregate yields one cell per complete y-by-x block of cells, equal to the chosen statistic over that block's valid cells, null exactly when the whole block is null, placed at the block's centre, with partial blocks at the bottom and right trimmed.",
     ["inputs", "configurations"],
     "block contents over a small alphabet x block sizes x statistics x dtypes x chunkings",
     "tests use a fixed raster and few block sizes",
     ["general.py", "stat_common.py"], [("aggregate", "general.py")], technique=ENUM,
     note="All block contents of the small blocks over the alphabet." + COMMON)

prop("C15", "Regions are the connected components of equal value",
     "regions labels two valid cells of a band identically exactly when they have the same zone value and are joined by a path of such cells under 4 or 8 connectivity; background (zero, and null) cells are not labelled, labels are consecutive from 1, and null cells stay null.",
     ["inputs", "configurations"],
     "every content of a small grid over {0,1,2,null} x connectivity x chunk layout",
     "component merging across chunk borders depends on shape and layout; tests use one image",
     ["general.py"], [("regions", "general.py")], technique=ENUM,
     note="All grids of the listed sizes over the alphabet; chunk layouts of tiled patterns." + COMMON)

prop("C16", "Remapping, reclassification and where choose cells correctly",
     "remap_range, reclassify and where give every cell the value selected by the documented rule: the first matching range under the chosen inclusivity, the mapped value, or the branch chosen by the condition; unmatched cells keep their value (or become null when asked), null cells of the inputs stay null, and None as a target makes the cell null. Result dtypes can hold all values and caller-supplied mappings are not modified.",
     ["inputs", "configurations"],
     "all cell values of an alphabet that contains every range end point, x all small mappings x inclusivity x dtype x null state",
     "end points, overlaps and collisions with the null value are sampled by tests",
     ["general.py", "raster.py"], [("remap_range/reclassify/where", "general.py")], technique=ENUM,
     note="Complete over the alphabet, all ordered range lists up to the bound and all inclusivities." + COMMON)

prop("C17", "Dilation and erosion take the max/min over the footprint",
     "dilate and erode give each valid cell the maximum or minimum of the valid cells under a footprint of the given size centred on it, independent of chunking; null cells are handled as documented (dilation may fill nulls from valid neighbours, erosion may null cells next to nulls).",
     ["inputs", "configurations"],
     "every small neighbourhood content including null x sizes x dtypes x chunk layouts",
     "tests use a fixed image and odd sizes",
     ["general.py"], [("dilate/erode", "general.py")], technique=ENUM,
     note="All small grids over the alphabet, sizes up to the bound." + COMMON)

prop("C18", "Stacking, splitting and selecting bands is lossless",
     "stack_bands, band_concat, split_bands and get_bands keep every band's values, null mask, grid and CRS, in the requested order, renumbering bands from 1; stacking reconciles dtypes and null values without changing which cells are null or any valid value, and splitting then stacking gives back the original raster. Grids that do not match are rejected (or aligned where asked).",
     ["inputs", "histories"],
     "all band selections and all stacks of up to 3 small rasters of different dtype, null value and null state",
     "tests cover selected pairs",
     ["_stack.py", "general.py", "raster.py"], [("stack/split", "_stack.py"), ("band_concat", "general.py")], technique=ENUM,
     note="All ordered stacks up to the bound, all index selections." + COMMON)

prop("C19", "A mosaic resolves overlaps by its rule, cell by cell",
     "mosaic places every input on one grid covering all of them; each output cell is the first, last, minimum, maximum or sum of the valid input values that cover it, in input order, and is null when none does. This holds for any number of inputs, arrangement, dtype, null value and chunking.",
     ["inputs", "configurations"],
     "all placements of small rasters on a small canvas x order x method x null pattern x number of inputs through the batching threshold",
     "tests place two or three rasters; order- and count-dependent paths are sampled",
     ["_mosaic.py", "_grids.py"], [("mosaic", "_mosaic.py"), ("grid union", "_grids.py")], technique=ENUM,
     note="All placements/orders within the bound; input counts 1..12." + COMMON)

prop("C20", "Padding and cropping keep cells at their coordinates",
     "pad extends the grid to contain the target bounds in whole cells: original cells keep coordinates, values and nulls, new cells get the fill value (or null), chunk layout does not matter; cropping the result back gives the original raster.",
     ["inputs", "configurations"],
     "all pad amounts per side x fill value kinds x null state x dtype x band count x chunk layout",
     "tests check selected sides and fills",
     ["_padding.py", "_grids.py", "clipping.py"], [("pad", "_padding.py"), ("clip_box", "clipping.py")], technique=ENUM,
     note="All side combinations up to the bound." + COMMON)

prop("C21", "Rasterizing features is correct for every partitioning",
     "rasterize gives each cell the value selected by the overlap rule (first, last, min, max in feature order) among the features that touch it (or contain its centre), null (or fill) where there is none; masks and inverted masks likewise. The result is the same for every partitioning of the features, every chunk layout, and with or without spatial awareness.",
     ["inputs", "configurations"],
     "all small sets of overlapping boxes/lines/points x order x values x rule x partitioning x chunk layout",
     "the feature-partition x chunk interplay is sampled with one dataset",
     ["rasterize.py"], [("rasterize", "rasterize.py")], technique=ENUM,
     note="All ordered selections of features from a small catalogue." + COMMON)

prop("C22", "Zonal statistics use exactly the cells of each zone",
     "zonal_stats returns, for every zone and band, each statistic over exactly the valid raster cells in that zone, one row per zone (and band), for raster and vector zones, independent of chunking and partitioning; null cells and cells outside zones contribute nothing.",
     ["inputs", "configurations"],
     "all zone/value/null assignments of small grids x statistic x chunk layout",
     "tests compare one dataset; partial-chunk aggregation (std, mode, median) needs particular zone/chunk arrangements",
     ["zonal.py"], [("zonal_stats", "zonal.py")], technique=ENUM,
     note="All zone assignments within the bound." + COMMON)

prop("C23", "Clipping keeps exactly the cells on the right side",
     "clip, erase, mask, envelope and clip_box keep a cell exactly when the features (or box) touch it (respectively do not), make all other cells null, keep values, coordinates and band structure, and crop the grid only where documented.",
     ["inputs", "configurations"],
     "all placements of boxes on a small grid x operation x null state x chunk layout",
     "the clipping tests mostly fail to run here for lack of data",
     ["clipping.py", "rasterize.py"], [("clipping", "clipping.py")], technique=ENUM,
     note="All cell-aligned and offset boxes on the small grid." + COMMON)

prop("C24", "Cells, points, polygons, quadrants and chunks partition a raster",
     "xy and index are inverse for every cell and corner; to_points yields one point per valid cell with its value, band, row, column, unique index and centre coordinates; to_polygons yields per band and value the exact union of those cells; quadrants and chunk rasters/boxes partition the raster without loss. None of this depends on chunking.",
     ["inputs", "configurations"],
     "all contents of small grids over an alphabet with null x chunk layouts x dtypes x connectivity",
     "tests check single layouts and module test_raster does not collect here",
     ["raster.py"], [("xy/index/to_points/to_polygons/to_quadrants/get_chunk_rasters", "raster.py")], technique=ENUM,
     note="All small grids over the alphabet, all layouts." + COMMON)

prop("C25", "Cost distance is the true least-cost path",
     "For every cell, cost distance equals the minimum over all 8-connected paths to any source of the accumulated (length-weighted, elevation-adjusted) cost, never crossing barriers; unreachable cells are null; traceback follows a least-cost path back to a source and allocation names a source that attains the minimum, with sources at cost zero.",
     ["inputs", "histories"],
     "every small cost grid over {costs, barrier, null} x source sets x elevation, and every operation sequence of the priority queue",
     "tests compare with an ArcGIS example and one reference run; heap orderings and ties need specific grids",
     ["distance/cost_distance.py", "distance/_heap.py"], [("Dijkstra search", "distance/cost_distance.py"), ("indexed heap", "distance/_heap.py")],
     technique="exhaustive enumeration of small cost grids against a Bellman-Ford fixpoint, plus explicit-state search over priority-queue operation sequences",
     note="All grids of the listed shapes over the alphabet and all queue histories to the bound." + COMMON)

prop("C26", "Proximity analysis finds the nearest target",
     "Proximity, allocation and direction give, for every cell, the distance to, value of, and compass direction towards a nearest target cell under the chosen metric, null when none lies within the maximum distance, and the three agree with one another; null cells are never targets, and chunking does not matter.",
     ["inputs", "configurations"],
     "every target pattern of small grids x metric x maximum distance x chunk layout x dtype",
     "tests use a single image",
     ["distance/proximity.py"], [("two-pass scan", "distance/proximity.py")], technique=ENUM,
     note="All target patterns of the listed grid shapes." + COMMON)

prop("C27", "Line length statistics sum clipped lengths around each cell",
     "line_stats.length gives each cell the total (optionally weighted) length of the line features inside the circle of the given radius around the cell centre, independent of feature partitioning and raster chunking.",
     ["inputs", "configurations"],
     "all small sets of line segments from a catalogue x radius x weights x partitioning x chunk layout",
     "tests use random lines with one layout",
     ["line_stats.py"], [("length", "line_stats.py")], technique=ENUM,
     note="All feature selections within the bound." + COMMON)

prop("C28", "Rasters created like a template match it",
     "constant_raster, full_like, zeros_like, ones_like, empty_like and random_raster give a raster on the template's grid and CRS with the requested band count, dtype and value; with copy_mask the template's null cells (first band's when band counts differ) are null and hold the result's null value, otherwise there is no null value.",
     ["inputs", "configurations"],
     "template dtype/mask/bands x requested dtype x bands x value x copy_mask x template kind",
     "tests sample dtype and mask combinations",
     ["creation.py"], [("creation functions", "creation.py")], technique=ENUM,
     note="Complete cross product on small templates." + COMMON)

prop("C29", "Rasters built from any source are normalised faithfully",
     "Building a raster from a NumPy array, dask array, xarray object or file gives the same cells at the same coordinates: dimensions are ordered band, y, x whatever their names and order, x increases and y decreases, bands are numbered from 1, and the null value and null mask (including NaN) of the source are carried over.",
     ["inputs", "configurations"],
     "dimension orders x names x coordinate directions x dtype x null encodings x 2D/3D x eager/lazy",
     "the raster test module does not collect here; orientation and null encodings are sampled",
     ["raster.py", "io.py", "masking.py"], [("normalize_xarray_data and constructors", "raster.py"), ("open_raster", "io.py")], technique=ENUM,
     note="Complete cross product of the listed source encodings." + COMMON)

prop("C30", "Model prediction is row-wise and null-preserving",
     "Predicting with a model over raster bands (or vector columns) gives each valid cell (or row) exactly the model's output for that cell's band values, in band order, with one output band (column) per model output; cells null in any band are null in every output band whatever the model gives for them, and rows with missing values get missing predictions. Chunking and partitioning do not matter.",
     ["inputs", "configurations"],
     "all null patterns of small multi-band rasters x model output shapes x chunk layouts / partitions",
     "tests use one raster and model",
     ["general.py"], [("model_predict_raster / model_predict_vector", "general.py")], technique=ENUM,
     note="All null patterns within the bound." + COMMON)

prop("C31", "Vector containers index and identify every feature once",
     "A Vector of n features has length n, item i is the i-th feature whatever the partitioning, iteration visits each once, added object ids are unique, positive and in order within a partition, and casting, buffering, reprojecting, saving and reopening keep every feature and attribute.",
     ["inputs", "configurations"],
     "all partitionings of small tables x operations and operation sequences",
     "tests use one or two partitions",
     ["vector.py"], [("Vector", "vector.py")], technique=ENUM,
     note="All partition layouts of small tables." + COMMON)

prop("C32", "Reprojection resamples onto the requested grid",
     "Reprojecting to the raster's own grid is the identity; reprojecting onto an aligned or integer-scaled grid gives each cell the resampled valid values at its location, null outside the source and where the source is null; the output grid, CRS, dtype and null value are the requested ones, for every dtype and chunking.",
     ["inputs", "configurations"],
     "target grids (shifted, scaled, cropped, extended) x dtype x null state x resampling x chunk layout",
     "tests check a few geoboxes",
     ["warp.py"], [("reproject", "warp.py")], technique=ENUM,
     note="Complete over the listed target grids." + COMMON)

prop("C33", "Point extraction reads the cell containing each point",
     "Extracting raster values at points returns, for each point (in every band), the value of the cell that contains it, null/NaN when that cell is null or the point lies off the raster, with points kept in order for every partitioning and chunk layout.",
     ["inputs", "configurations"],
     "all cells and off-grid positions x null state x bands x partitions x chunk layouts",
     "tests use random points on one raster",
     ["zonal.py"], [("extract_points", "zonal.py")], technique=ENUM,
     note="Points at every cell position including edges and outside." + COMMON)
