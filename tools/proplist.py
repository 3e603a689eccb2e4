FLOW = "gated value numbering over the Python and Cython sources"
NOTE = ("Sound for the statement as worded with respect to the analysed sources, under the semantics of the analysis engine (lib/): no execution; "
        "assumes NumPy/GDAL/Cython operate as documented. Constructs the rule cannot decide are listed as undecided in the evidence and raise no alarm.")

# ----------------------------------------------------------------- interface between Python and the native detectors
P("C01", "Records mean the same bytes on the native and the Python side",
  "Every structured record that crosses between the native detectors and Python, or is decoded from disk as such a record, is described identically on both sides: same field names, order, element types, array shapes, byte offsets and record size.",
  "inputs configurations", "all records of all pixels, every consumer that declares its own copy of a layout",
  "Tests compare a few scalar fields of one pixel; a wrong offset in a field they do not read, or in a consumer outside the tests, is invisible.",
  ["src/cxx/output.h", S + "_colds_cython.pyx", S + "common.py", T + "export_change_map.py"],
  [("structured dtypes", S + "common.py"), ("record structs", "src/cxx/output.h")],
  technique="record-layout equivalence: clang record layouts vs Cython declarations vs NumPy dtypes recovered by value numbering", note=NOTE)

P("C02", "Buffer sizes, codes and scale constants agree between Python and C",
  "The buffers Python hands to the native detectors have at least the capacity the native code assumes, a window length the native per-pixel arrays cannot hold is refused before the native call, and the mode codes, day offset and slope scale Python uses to interpret native output are the ones the native code was compiled with. The day numbers stored relative to 1982 are always turned back into ordinal dates with that same offset.",
  "inputs configurations", "all calls of the pixel API and every consumer of stored records",
  "A test with few segments or a short queue never fills a buffer, and no test decodes stored NRT states.",
  [S + "_colds_cython.pyx", S + "constants.yaml", S + "utils.py", S + "colds.py", "src/cxx/s_ccd.h", "src/cxx/cold.h", "src/cxx/defines.h"],
  [("NUM_FC, NUM_NRT_QUEUE, DEFAULT_CONSE", S + "_colds_cython.pyx"), ("SCCD mode codes", S + "constants.yaml")],
  technique="cross-language constant and capacity agreement: preprocessor macros vs terms at the native call sites", note=NOTE)

P("C03", "Every argument reaches the detector under its own meaning",
  "Each argument a user passes to cold_detect, obcold_reconstruct, sccd_detect or sccd_update reaches the native detector unchanged as the parameter of that meaning (a 0 for the starting date or output interval may be replaced by its documented default), and none is dropped. The length passed with the observation arrays is their length, and the position given is the position of the returned pack.",
  "inputs", "all argument values of the four public pixel functions",
  "Tests use the defaults or one value per option, so two swapped options with equal values, or an ignored one, give the same result.",
  [S + "colds.py", S + "_colds_cython.pyx", "src/cxx/cold.h", "src/cxx/s_ccd.h"],
  [("keyword forwarding", S + "colds.py"), ("native call", S + "_colds_cython.pyx")],
  technique="interprocedural value-flow from API parameters to native arguments", note=NOTE)

P("C04", "Out-of-domain options and malformed series are refused before native code",
  "A call of a public pixel function with a numeric or boolean option outside its documented domain, with an observation array that is not one-dimensional, or with observation arrays of different lengths raises an error before the native detector runs.",
  "inputs", "all values of every validated option and all shapes of the nine observation arrays",
  "Tests pass only valid input; each missing constraint or array is a separate input class.",
  [S + "colds.py", S + "_param_validation.py"],
  [("constraint table", S + "colds.py"), ("constraint classes", S + "_param_validation.py")],
  technique="guard dominance of native calls plus finite decision of the constraint predicates over order cells", note=NOTE)

P("C05", "Detection never modifies what the caller passed in",
  "cold_detect, obcold_reconstruct, sccd_detect and sccd_update leave the caller's observation arrays as they were, and sccd_update and sccd_identify leave every array of the given pack as it was: all memory the native code may write is freshly created by the call.",
  "inputs histories", "all inputs and all sequences of updates on a pack",
  "Tests do not compare inputs before and after, and an alias only shows for inputs already in the native dtype.",
  [S + "colds.py", S + "_colds_cython.pyx", S + "_param_validation.py"],
  [("copies before the native call", S + "_colds_cython.pyx")],
  technique="alias/effect analysis: fresh-memory proof of every native write target (LLVM parameter effects) and of every Python store", note=NOTE)

P("C06", "Native record and queue writes stay inside the caller's buffers",
  "No detector run writes a segment record, pinpoint record, NRT queue entry or model-tail slot at an index beyond the capacity of the buffer the Python layer allocated, however many segments or observations the pixel has.",
  "inputs", "all time series, lengths and numbers of breaks",
  "The pixels in the tests have a handful of segments; overflow needs more than forty.",
  ["src/cxx/cold.c", "src/cxx/s_ccd.c", S + "_colds_cython.pyx"],
  [("record counters num_fc / num_fc_pinpoint", "src/cxx/s_ccd.c"), ("queue export", "src/cxx/s_ccd.c")],
  technique="bounds-check dominance of record stores on LLVM IR", note=NOTE)

P("C07", "Native working memory is released on every successful return",
  "Whenever a native detector or one of its procedures returns success, every block of working memory it allocated during that call has been released exactly once, and none is used after its release.",
  "inputs histories", "all control-flow paths to a successful return in all procedures the three native entry points reach",
  "A leak or a double release on one path is invisible for a few pixels; a tile run has tens of millions.",
  ["src/cxx/cold.c", "src/cxx/s_ccd.c", "src/cxx/misc.c", "src/cxx/multirobust.c", "src/cxx/2d_array.c", "src/cxx/KFAS.c"],
  [("malloc/free pairs", "src/cxx/*.c")],
  technique="typestate (allocated/released) dataflow on LLVM IR", note=NOTE)

P("C08", "A failure inside the detectors is reported, never turned into output",
  "If an allocation fails or a native step reports an error, the native entry point returns an error status, and a non-success status always makes the Python call raise instead of returning records.",
  "inputs fault_sequences", "every call of a status-returning native procedure and every allocation, on all paths",
  "No test makes an inner step fail.",
  ["src/cxx/cold.c", "src/cxx/s_ccd.c", "src/cxx/misc.c", S + "_colds_cython.pyx"],
  [("RETURN_ERROR", "src/cxx/utilities.h"), ("result checks", S + "_colds_cython.pyx")],
  technique="must-check analysis of status values and allocation results on LLVM IR; guard analysis of the Cython returns", note=NOTE)

P("C09", "Detection depends on its inputs only",
  "The result of a detector call is a function of its arguments: native code keeps no state between calls (no written global or function-static storage, no clock or random source) and never computes with a local variable that some path leaves unassigned.",
  "inputs histories schedules", "all call histories, all paths",
  "A stale static or unassigned value usually repeats the same value in a test run.",
  ["src/cxx/*.c"],
  [("no writable globals", "src/cxx"), ("initialisation of locals", "src/cxx")],
  technique="global-effect analysis and definite-assignment dataflow on LLVM IR", note=NOTE)

P("C10", "Only valid observations enter a model",
  "The standard procedures of COLD, object-based reconstruction and S-CCD take an observation only if its QA is clear or water and every optical band lies in its valid range (blue above -200, the others above 0, all below 10000; the thermal band absent or within its Kelvin range, unless Collection-2 mode is on); the permanent-snow procedures additionally take snow; the fallback for too few clear observations takes any non-fill observation in range. A valid observation of a new date is never left out. The date and the band values appended for an observation are all that observation's own, each band in its own series. A QA code that is none of the documented ones is refused.",
  "inputs", "all QA codes and all band values",
  "The sample pixels have no out-of-range value at a boundary.",
  ["src/cxx/cold.c", "src/cxx/s_ccd.c", "src/cxx/utilities.c"],
  [("preprocessing", "src/cxx/utilities.c"), ("append loops of the procedures", "src/cxx/s_ccd.c")],
  technique="finite case analysis over LLVM IR (QA codes, range marks, order cells of band values)", note=NOTE)

P("C11", "Every published segment record is completely filled in",
  "Whenever a detector counts a segment into its result, every field of that segment record, for every band and coefficient, has been assigned during the call.",
  "inputs", "all paths that publish a record",
  "Zeroed buffers hide a forgotten field: it reads as a plausible 0.",
  ["src/cxx/cold.c", "src/cxx/s_ccd.c"],
  [("record stores before num_fc++", "src/cxx/cold.c, src/cxx/s_ccd.c")],
  technique="must-assigned dataflow over record fields on LLVM IR", note=NOTE)

P("C12", "The near-real-time state carries exactly what its mode needs",
  "For every mode the detector can end in, sccd_detect and sccd_update return a pack holding the model exactly in the modes that have one and the queue exactly in the modes that have one, with the mode itself, and raise for a mode outside the protocol; with pinpoint on, a pair of pack and pinpoint records is returned for every mode. sccd_update restores the model and the queue in every mode that carries them, and sccd_identify and saving never read a part the mode does not carry.",
  "inputs histories", "all eight mode values times pinpoint on/off, all update histories",
  "The S-CCD tests are skipped; each mode is a separate history.",
  [S + "_colds_cython.pyx", S + "colds.py", S + "utils.py"],
  [("mode dispatch", S + "_colds_cython.pyx")],
  technique="exhaustive finite evaluation of the return terms and guards over mode values", note=NOTE)

P("C13", "Unordered dates are refused by COLD and the reconstruction",
  "cold_detect and obcold_reconstruct report an error for every series in which some date is later than the date that follows it, before any record is produced; a series in ascending order, same-day observations included, is not refused.",
  "inputs", "all date sequences and positions of the disorder",
  "Tests use sorted dates only.",
  ["src/cxx/cold.c"], [("order check loop", "src/cxx/cold.c")],
  technique="loop-shape and error-path analysis of the order check on LLVM IR", note=NOTE)

P("C14", "Values narrowed to integer output fields are saturated, never wrapped",
  "A change magnitude, change angle or sum of squared residuals written to an integer field of the native output lies in the range of that field by an explicit bound on every path, so an extreme value is never stored as a small or negative one; the angle between change vectors is a number for parallel and for zero vectors too.",
  "inputs", "all magnitudes",
  "Typical magnitudes are far below the limit.",
  ["src/cxx/cold.c", "src/cxx/s_ccd.c", "src/cxx/misc.c"], [("saturation before conversion", "src/cxx/cold.c, src/cxx/s_ccd.c"), ("MeanAngl_float", "src/cxx/misc.c"), ("add_square", "src/cxx/s_ccd.c")],
  technique="value-range analysis of narrowing conversions and NaN tracking of angles on LLVM IR", note=NOTE)

# ----------------------------------------------------------------- tile pipeline
P("C15", "Block, pixel and position numbering is one bijection everywhere",
  "For every tile and block configuration, all pipeline stages agree on which block a pixel belongs to: the block's grid column and row, its offset in the tile, a pixel's position id and the row and column recovered from it are mutually inverse, including when the numbers of block columns and rows differ.",
  "configurations inputs", "all tile sizes and block grids, square or not, all blocks and pixels",
  "The test configuration is square, so swapped rows and columns give the same answer.",
  [S + "utils.py", T + "tile_processing.py", T + "export_change_map.py", S + "ob_analyst.py", S + "pyclassifier.py", T + "prepare_ard.py"],
  [("get_rowcol_intile, get_block_x, get_block_y, assemble", S + "utils.py")],
  technique="polynomial normal forms of index expressions from value numbering, decided over the mixed-radix ring and exhaustive small grids", note=NOTE)

P("C16", "Every file a stage reads is named as its producer names it",
  "Each file that a pipeline stage opens by a constructed name has exactly the name under which an earlier stage writes it, for every block, row, date, year and configuration.",
  "configurations", "all producer/consumer pairs of the pipeline, all block and year numbers",
  "Unit tests write and read with hand-made names.",
  [T + "*.py", S + "ob_analyst.py", S + "pyclassifier.py", S + "utils.py"],
  [("file name templates", T + "tile_processing.py")],
  technique="string-template normal forms of producer and consumer paths from value numbering", note=NOTE)

P("C17", "Completion markers appear only after the work they stand for",
  "A marker file that makes later runs or waiting stages treat a block, row or step as finished is created only after all output of that unit has been written, and a stage that waits for a marker waits for the one its producer creates.",
  "crash_points schedules", "a crash or a concurrent reader at any point of a stage",
  "Tests never interrupt a stage.",
  [T + "tile_processing.py", S + "pyclassifier.py", S + "ob_analyst.py", T + "prepare_ard.py", T + "export_change_map.py"],
  [("marker files", T + "tile_processing.py")],
  technique="happens-before ordering of output and marker events in the effect trace", note=NOTE)

P("C18", "One bad pixel cannot spoil its block",
  "When detection fails for a pixel of a block, the pixel is recorded with empty output in its own place, the remaining pixels are processed, and records, change magnitudes and dates of every other pixel stay aligned with their positions.",
  "inputs fault_sequences", "all pixels of a block and every failure of the pixel detector",
  "No test runs a block.",
  [T + "tile_processing.py"], [("per-pixel exception handlers", T + "tile_processing.py")],
  technique="exception-path effect analysis of the pixel loop", note=NOTE)

P("C19", "QA words decode to the right class with cloud taking precedence",
  "For every QA word, decoding yields fill, cloud, shadow, snow, water or clear exactly as the collection's bit layout defines, with one precedence for every sensor and collection reader.",
  "inputs", "all 16-bit QA words",
  "No test decodes QA words.",
  [T + "prepare_ard.py"], [("qabitval", T + "prepare_ard.py")],
  technique="exhaustive evaluation of the decoder's decision term over all bit patterns", note=NOTE)

P("C20", "Band files map to the same order and physical scale for every sensor",
  "For every supported sensor and collection, the stacked observation has blue, green, red, NIR, SWIR1, SWIR2, thermal, QA in this order, each read from that sensor's own band file and scaled by that collection's scale for that band.",
  "configurations inputs", "all sensors and collections",
  "No test reads a scene.",
  [T + "prepare_ard.py"], [("band selection", T + "prepare_ard.py")],
  technique="term comparison of stacked bands against a sensor/collection table", note=NOTE)

P("C22", "Training and prediction compute the same features from a segment",
  "The feature vector used to classify a pixel is computed from a segment by the same definition as the feature vector the classifier was trained on: same bands, coefficients, order, scaling and reference date (July 1 of the year). A training row pairs the features of a pixel in the reference year with that pixel's own label; samples per class are proportional to the class area within the configured minimum and maximum and never more than the class has, without repetition, pixels outside the land cover classes (unlabelled, fill) counting for none. The class of a block pixel is predicted from its own row, is 255 where that row is all fill, and is saved under its own year and block.",
  "inputs configurations", "all segments and years",
  "Tests cover feature extraction of one block only.",
  [S + "pyclassifier.py"], [("extract_features", S + "pyclassifier.py")],
  technique="value numbering of the stored, training and class arrays, evaluated on identity-tagged tiles", note=NOTE)

P("C23", "Classification and sampling are reproducible",
  "Every random choice of the pipeline (sample selection, forest construction) is drawn from a generator with a fixed or user-given seed, set in the same run before every draw, no written value comes from the clock or the process, and what a stage reads from a directory does not depend on the order in which the file system lists it; so re-running a stage on the same data gives the same map.",
  "schedules histories", "all runs",
  "One run cannot show that another differs.",
  [S + "pyclassifier.py", S + "ob_analyst.py", T + "*.py"], [("random_state", S + "pyclassifier.py")],
  technique="seed-dominates-draw and run-dependent-source queries over inlined event traces; evaluation of directory readers under permuted listings", note=NOTE)

P("C24", "Work is divided so that every block is processed exactly once",
  "For every number of workers and every number of blocks, rows or maps, the parallel work division assigns each unit to exactly one worker, and none is left out or processed twice.",
  "configurations schedules", "all worker counts, all unit counts",
  "Tests run one worker.",
  [T + "*.py", S + "pyclassifier.py", S + "ob_analyst.py"], [("rank/n_cores partition", T + "tile_processing.py")],
  technique="partition proof of loop bounds by residue algebra and exhaustive small instances", note=NOTE)

P("C25", "Raster outputs have the tile's width and height",
  "Every raster the pipeline writes is created with the number of columns as width and the number of rows as height, in the array's data type, with the georeference of the reference image where one is given. All bands and the QA of one image are warped onto one and the same grid, a single-path raster onto the grid of the image it masks, and the index image numbers a tile's pixels as row*10000 + column.",
  "configurations", "all tile shapes", "Tests use square tiles.",
  [T + "export_change_map.py", S + "utils.py", S + "ob_analyst.py", S + "pyclassifier.py"], [("GDAL Create", T + "export_change_map.py")],
  technique="argument-role query on raster creation", note=NOTE)

P("C21", "Stored models are evaluated with the native convention",
  "Wherever Python code evaluates a stored model (prediction at a date, near-real-time change magnitude, features), it uses the detector's convention: intercept, slope times the "
  "ordinal date over 10000, then cosine and sine of 2*pi*k*date/365.25 for k = 1, 2, 3 in the stored order, and change magnitudes compare each of the latest consecutive "
  "observations with the prediction at that observation's own date (their median per band). A feature of a date is the named coefficient of the segment covering that date (a segment covers the dates up to the next "
  "segment's start), a0 being the level at the date and c1 the slope per day, a missing coefficient counting as 0 and a date outside all segments as fill. The native fit and the native prediction use that same "
  "convention for 2, 4, 6 and 8 coefficients.",
  "inputs configurations", "all models, dates and numbers of consecutive observations",
  "Tests evaluate no stored model against its definition.",
  [S + "utils.py", S + "pyclassifier.py", S + "colds.py", "src/cxx/misc.c"], [("predict_ref", S + "utils.py"), ("calculate_sccd_cm", S + "utils.py")],
  technique="value numbering of the prediction terms (Python syntax tree, LLVM IR) evaluated against the model basis", note=NOTE)

P("C26", "Saved near-real-time packs load back as the same pack",
  "A near-real-time state that is converted to a list, dumped and loaded again gives a pack whose every field is the field that was saved, for every mode and with and without records, "
  "model and queue; no field is dropped, swapped or retyped.",
  "inputs histories", "all packs", "Tests of the pack are skipped.",
  [S + "utils.py", S + "common.py", S + "colds.py"], [("unindex_sccdpack / index_sccdpack", S + "utils.py")],
  technique="composition of dump and load terms by value numbering, evaluated on element-tagged packs", note=NOTE)

P("C27", "Image stacks are read in date order",
  "Whatever order the file system lists the images in, a block reader returns every layer of the folder inside the inclusive date bounds exactly once, oldest first, next to its own "
  "acquisition date, and each detector receives for one pixel those dates with the values of its own band on those dates; a folder without layers in range gives no stack and no analysis.",
  "inputs configurations", "all directory listings, sensors and date bounds",
  "Tests read one directory with one listing order and no bounds.",
  [T + "tile_processing.py", S + "utils.py", S + "ob_analyst.py"], [("get_stack_date", T + "tile_processing.py"), ("read_blockdata", S + "utils.py")],
  technique="value numbering and evaluation of the reader terms on identity-tagged layers", note=NOTE)

P("C28", "Options given by the user reach the analysis they belong to",
  "Every analysis option a user sets on a command line or in the parameter file (conse, probability threshold, change-magnitude interval, Collection-2 flag, date bounds, paths, clear-ratio "
  "thresholds) is the value used by the computation it names in every stage and mode, converted once; no stage silently falls back to a default or swaps two options. An image is stacked exactly when its clear share exceeds the "
  "threshold given and its date lies in the inclusive bounds given; the first and last dates recorded for a stack are those of the images stacked; an object is called change by the threshold and size slope of its "
  "class, the uniform ones where given, the defaults for unclassified objects.",
  "configurations", "all option values, modes and stages", "Tests run the default options.",
  [T + "tile_processing.py", S + "ob_analyst.py", T + "prepare_ard.py", T + "export_change_map.py"], [("click options", T + "tile_processing.py")],
  technique="source-to-sink reachability of option values in the effect trace", note=NOTE)

P("C29", "Break maps carry each pixel's own break under its own year",
  "A cell of the yearly break map holds, for a break of that pixel in that year, category*1000 plus the day of year of the break, with the category computed from the records of that pixel "
  "only; a year without a break keeps the fill value -9999, breaks below full probability or outside the years asked for leave no trace, and each year's map is saved, assembled and exported under "
  "that year. The recent and first disturbance maps hold the latest and earliest year in which the pixel has a disturbance break. A coefficient raster holds the coefficient and band of its name, "
  "taken at July 1 of its year, at the place of the pixel it was fitted for.",
  "inputs configurations", "all records and year ranges", "Tests export no break map.",
  [T + "export_change_map.py"], [("results_block", T + "export_change_map.py")],
  technique="value numbering of the stored cell value and its index, loop-carried values by their recurrences", note=NOTE)

# ----------------------------------------------------------------- outside the family
P("C30", "A reported disturbance meets every threshold and carries its first date",
  "sccd_identify reports a disturbance exactly if the pack is in a monitoring mode that is not yet confirmed, at least dist_conse consecutive anomalies stand at the end of the series, their change magnitude exceeds and their angle stays below the given thresholds, "
  "and the change is not greening (red and SWIR1 below and NIR above the single-band threshold); the date is the ordinal date of the first of those anomalies. The pack comes back unchanged, except that a reported disturbance moves the standard monitoring mode to its confirmed mode when transform_mode is on.",
  "inputs", "all packs, all thresholds", "Tests of sccd_identify are skipped.",
  [S + "colds.py", S + "utils.py"], [("sccd_identify", S + "colds.py"), ("calculate_sccd_cm", S + "utils.py")],
  technique="value numbering of the returned term, evaluated on packs around every threshold", note=NOTE)

P("C31", "Object analysis uses the right snapshots, statistics and dates",
  "The object analysis of a date segments the change magnitudes and dates of that date, with each pixel's value one interval earlier standing in where it has none; flood-fill objects grow from the strongest pixel on, at its own position, within its tolerance. "
  "Every object is judged once by the mean over its own pixels, the most frequent land class of its own pixels in the map of the year before (not before the first year), and the size of its connected patch, against the threshold and size slope of its own class (the default pair without class map, the uniform pair where one is given). "
  "Exactly the pixels of change objects are marked, and the stored block maps hold each marked pixel's own break date in days since year 0001 and 0 elsewhere; the first snapshot yields none.",
  "inputs", "all tiles, dates, methods, with and without class maps; the external image operators are opaque", "Tests call the object analysis on no real tile; nothing compares statistics with the pixels they come from.",
  [S + "ob_analyst.py"], [("obia_execute", S + "ob_analyst.py"), ("segmentation_floodfill", S + "ob_analyst.py"), ("object_analysis", S + "ob_analyst.py"), ("modeby", S + "ob_analyst.py"), ("save_obiaresult", S + "ob_analyst.py")],
  technique="value numbering with effects; terms evaluated on tagged maps, segmentation left opaque", note=NOTE)

P("C32", "The near-real-time state is complete and an update resumes from it",
  "Whenever a detection or update call ends with a model (monitoring and monitor-to-queue modes), every field of the model handed out - start date, number of observations, the last values and dates of each band, covariance, coefficients, noise and sum of squared residuals - has been assigned "
  "by that call, or the model is untouched; whenever it ends without one, the queue is saved, and each counted queue entry holds the date and all bands of one observation, in order. "
  "An update restores each running quantity from the field, the index and the offset it was saved with, and a pixel given to the standard or the snow procedure stays with it.",
  "inputs histories", "all series, all modes a call can start in", "Tests of the S-CCD are skipped; they compare whole results on one series.",
  ["src/cxx/s_ccd.c"], [("step3_processing_end", "src/cxx/s_ccd.c"), ("sccd_snow", "src/cxx/s_ccd.c"), ("sccd_standard", "src/cxx/s_ccd.c")],
  technique="save/restore map inversion and must-assigned dataflow over the modes on LLVM IR", note=NOTE)

P("C33", "Change-magnitude snapshots lie on one time grid",
  "With change-magnitude output on, the magnitude of a tested window and its date go to slot (date - starting date) // interval of two arrays that have room for every observation date of the series; "
  "a larger magnitude replaces a smaller one together with its date, and a slot without a test keeps the fill values. cold_detect and obcold_reconstruct return records alone, or records, magnitudes and dates in that order, "
  "and exactly the counted records. The maps of a tile put slot k of every pixel in the map named after starting date + k * interval.",
  "inputs", "all series, intervals, starting dates; all grids", "One test compares one series' snapshots with stored values.",
  ["src/cxx/cold.c", "src/python/pycold/_colds_cython.pyx", "src/python/pycold/utils.py"],
  [("stand_procedure", "src/cxx/cold.c"), ("_cold_detect", "src/python/pycold/_colds_cython.pyx"), ("assemble_cmmaps", "src/python/pycold/utils.py")],
  technique="value-web and control-dependence analysis on LLVM IR; value numbering of the Cython wrappers", note=NOTE)

P("C90", "Results equal the MATLAB reference implementation",
  "For every pixel, cold_detect gives the same number of segments, break dates and coefficients (up to floating-point tolerance) as the published MATLAB implementation.",
  "inputs", "all time series", "Tests compare three pixels.", ["src/cxx/cold.c", "tests/test_pycold.py"], [("cold", "src/cxx/cold.c")],
  na="a numeric equivalence with an external program over floating-point iteration; no static argument in reach bounds it")
P("C91", "Online S-CCD updates equal the offline run",
  "Feeding a series to sccd_update in arbitrary pieces gives the same segments and state as sccd_detect on the whole series.",
  "inputs histories", "all series and all partitions into updates", "Tests are skipped.", ["src/cxx/s_ccd.c"], [("sccd", "src/cxx/s_ccd.c")],
  na="a relational property of floating-point Kalman filtering over unbounded histories with rounding of the saved state; static analysis covers the protocol (C12) and the saved state (C32)")
P("C92", "Detected breaks are real land changes",
  "Break probability, change magnitude and classification accuracy meet the published accuracy.",
  "inputs", "all landscapes", "Ground truth is needed.", ["src/cxx/cold.c", S + "pyclassifier.py"], [("cold", "src/cxx/cold.c")],
  na="statistical accuracy against ground truth is not a property of the source")
P("C93", "A pixel run ends in bounded time",
  "Every detector call terminates within time polynomial in the number of observations.",
  "inputs", "all time series", "Tests time nothing.", ["src/cxx/cold.c", "src/cxx/s_ccd.c"], [("main while loop", "src/cxx/cold.c")],
  na="termination depends on runtime progress of the moving window through data-dependent restarts and on LASSO/L-BFGS convergence; no ranking argument in reach")
P("C94", "Objects delineate real change patches",
  "Object-based analysis segments change-magnitude maps into spatially connected objects.",
  "inputs", "all maps", "Tests use two small maps.", [S + "ob_analyst.py"], [("segmentation", S + "ob_analyst.py")],
  na="a property of scikit-image/OpenCV algorithms on data, not of this source")
P("C95", "Detectors read only the observations they were given",
  "For every series length, QA mix, conse and mode, each index the detectors form into the observation arrays lies between the first and the last stored observation.",
  "inputs", "all series, masks, conse values and modes", "Tests use three long clear series and conse 6.", ["src/cxx/cold.c", "src/cxx/s_ccd.c", "src/cxx/misc.c"],
  [("look-back before the first segment", "src/cxx/s_ccd.c step1_cold_initialize"), ("thermal window of a snow pixel", "src/cxx/cold.c inefficientobs_procedure")],
  na="the bounds rest on relations between a dozen window variables (i, i_start, i_dense, i_break, n_clr after outlier removal, number of kept residuals) carried through nested data-dependent loops; interval and zone reasoning over the IR leaves most of these indices open, so a check would answer for a minority of them. Two defects of this kind, found by other means, are repaired")
