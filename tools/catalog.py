"""The properties of kikuchipy: the one source of properties.jsonl and
MANIFEST.json (written by tools/write_meta.py)."""

S = "src/kikuchipy/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, technique=None,
         note=None, na=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
        files=[S + f for f in files], mechanism=mechanism, observe=observe,
        technique=technique, note=note, na=na,
    ))


prop(
    "C01", "Objects passed by the caller are never changed",
    "Calling a public function, method or constructor leaves every array, dictionary, list, "
    "detector, map, metric or other object passed as an argument exactly as it was, both during the "
    "call and when the object that kept the argument is used later. Exceptions are arguments whose change is "
    "the documented purpose (figures drawn into, files written, interactive views).",
    ["inputs", "programs"],
    "every public callable, every argument, every option combination and every path through the library",
    "Tests check results and rarely compare arguments before and after; aliasing through views, "
    "defaults and stored references only shows for particular dtypes, options or later calls.",
    ["signals/ebsd.py", "detectors/_ebsd_detector.py", "indexing/_refinement/_refinement.py",
     "pattern/_pattern.py", "draw/_ebsd_detector_plot.py"],
    [("copies made before modification", S + "signals/ebsd.py"),
     ("deepcopy of detectors", S + "detectors/_ebsd_detector.py")],
    ["arguments after a call", "objects stored by constructors and setters"],
    "interprocedural alias and effect analysis on the syntax tree",
    "Decides, for every public callable, that no reachable write goes through memory that may belong "
    "to an argument. Trusted: tables of what library calls copy, alias or modify; calls on values of "
    "unknown kind are taken not to modify them.",
)
prop(
    "C02", "inplace=False leaves the object untouched; in-place calls return nothing",
    "An operation called with inplace=False returns a new object on every path, leaves the object it "
    "is called on unchanged and hands back data that is not the original's data; with inplace=True "
    "it changes the object and returns None, and a lazy output of an in-place operation is refused before anything "
    "changes. Methods without the switch, apart from documented in-place ones, change nothing "
    "of their object and never return the object itself, and a deep copy shares nothing with the original.",
    ["inputs", "configurations", "histories"],
    "every public method of every public class, every value of inplace/lazy_output, every concrete subclass",
    "Tests sample single option combinations; a write through a shared detector or background on one "
    "branch, or a missing return on a rare branch, is invisible to them.",
    ["signals/ebsd.py", "signals/_kikuchipy_signal.py", "detectors/_ebsd_detector.py",
     "signals/ebsd_master_pattern.py", "signals/virtual_bse_image.py"],
    [("inplace branches", S + "signals/_kikuchipy_signal.py"), ("deepcopy()", S + "signals/ebsd.py")],
    ["receiver after the call", "returned object"],
    "interprocedural effect and escape analysis per option value",
    "Decides writes to, and aliases of, the receiver for each value of the switch. Trusted: "
    "HyperSpy's map/deepcopy contracts; private attributes unknown to constructors and setters are memos.",
)
prop(
    "C03", "A call's result does not depend on earlier calls",
    "No public call leaves anything behind in module-level or class-level objects, default argument "
    "values, cached return values, library-wide settings or the global random state, and no object remembers "
    "a derived value that a later change of the object makes wrong. The same call with the same "
    "inputs therefore gives the same result whatever ran before.",
    ["histories"],
    "every sequence of public calls in one process",
    "Tests run one call at a time on fresh fixtures; leaks need a particular earlier call, and "
    "test order hides them.",
    ["indexing/_refinement/_refinement.py", "detectors/_ebsd_detector.py", "draw/_ebsd_detector_plot.py",
     "data/_data.py", "signals/_kikuchipy_signal.py"],
    [("fresh containers per instance and call", S + "indexing/_refinement/_refinement.py")],
    ["second call after an arbitrary first call"],
    "interprocedural effect and escape analysis of shared roots; memo-invalidation rule",
    "Decides that no public callable writes or returns an object that outlives the call through a "
    "module, class, default or cache. RANSAC-based extrapolation is random by documentation and excluded.",
)
prop(
    "C04", "Work run in parallel never writes state another piece can see",
    "Functions run per pattern or per chunk by the scheduler modify only objects they created "
    "themselves, and compiled parallel loops write each array element from one iteration only. "
    "Results are therefore the same for every schedule and number of threads.",
    ["schedules"],
    "every interleaving of chunk tasks, optimizer runs and parallel-loop iterations",
    "Tests use tiny data in one or two chunks and cannot control the scheduler.",
    ["indexing/_refinement/_solvers.py", "indexing/_refinement/_refinement.py", "pattern/chunk.py",
     "signals/util/_master_pattern.py", "simulations/kikuchi_pattern_simulator.py"],
    [("optimizer objects copied per chunk", S + "indexing/_refinement/_refinement.py"),
     ("prange loops indexed by their variable", S + "signals/util/_master_pattern.py")],
    ["results of mapped functions", "parallel loops"],
    "effect analysis of functions handed to the scheduler; prange write-index rule",
    "Decides that functions handed to dask or HyperSpy write only objects they allocate, and that "
    "parallel numba loops write elements selected by the loop variable.",
)
prop(
    "C05", "Signals keep detector, map, background, axes and metadata",
    "Every public operation that returns a signal of the same kind gives it the custom attributes "
    "(detector, crystal map and static background; hemisphere, phase and projection of master patterns) and the "
    "axes and metadata of the signal it was made from, on every path and for every value of inplace and "
    "lazy_output. In-place operations, lazy/non-lazy conversion, slicing, cropping and rebinning never drop these, "
    "reset them to defaults or leave them unadapted to the new shape; grids of patterns have the requested number of positions.",
    ["inputs", "configurations"],
    "every public method of every registered signal class, lazy and not, and every option value",
    "HyperSpy silently drops attributes it does not know whenever it builds a new signal; tests compare "
    "patterns and look at attributes for a handful of methods and options.",
    ["signals/_kikuchipy_signal.py", "signals/ebsd.py", "signals/_kikuchi_master_pattern.py",
     "signals/ebsd_master_pattern.py"],
    [("custom attributes read before and set after", S + "signals/_kikuchipy_signal.py"),
     ("attributes adapted when slicing", S + "signals/ebsd.py")],
    ["attributes, axes and metadata of returned signals"],
    "interprocedural value-provenance analysis on the syntax tree",
    "Decides where each attribute of a returned or changed signal comes from on every path, and, for slicing, cropping, "
    "rebinning, downsampling and grid extraction of small symbolic signals, which elements of map, background and detector "
    "it consists of. Trusted: HyperSpy's documented treatment of unknown attributes.",
)
prop(
    "C06", "Saving to kikuchipy's h5ebsd format and loading gives the signal back",
    "An EBSD signal saved to kikuchipy's HDF5 format and loaded again has the same patterns in the same map shape, the "
    "same map axes (names, sizes, scales), detector (shape, pixel size, binning, tilt, azimuthal, twist, sample tilt and "
    "projection centers), static background (or none if there was none), compatible crystal map and microscope parameters, "
    "each under its own name, for maps, lines along x or y and single patterns, lazily or not; no entry of a group is left "
    "out because of another one.",
    ["inputs", "histories"],
    "every detector, axes, background, map and metadata a signal can have, and every navigation dimension",
    "Tests save and load a few square 2D maps with default detector angles, for which a dropped or swapped entry is "
    "invisible.",
    ["io/plugins/kikuchipy_h5ebsd/_api.py", "io/plugins/_h5ebsd.py"],
    [("writer and reader", S + "io/plugins/kikuchipy_h5ebsd/_api.py"),
     ("dictionaries written to and read from groups", S + "io/plugins/_h5ebsd.py")],
    ["loaded signals"],
    "interprocedural value numbering through a model of the file's tree",
    "Decides where each part of what is read comes from, for symbolic parameters, scales and projection centers; map "
    "shapes are represented by a map, a line along x, one along y and a single pattern. Scales of the pattern axes and other "
    "metadata are not claimed. Trusted: h5py returns what was written; orix's map dictionaries.",
)
prop(
    "C07", "A detector made from another detector keeps its geometry",
    "Every operation that derives a detector from another one (cropping, slicing a signal, copying, "
    "extrapolating or fitting projection centers, refinement) keeps the pixel size, binning, "
    "tilt, azimuthal, twist and sample tilt of the original, each under its own name, unless "
    "the caller passes a new value (fit_pc() estimates the sample tilt), and always sets shape and projection "
    "center explicitly; the detector of a sliced, cropped, rebinned or downsampled signal has the shape and the projection "
    "centers of the patterns that remain.",
    ["inputs", "programs"],
    "every construction and copy of a detector reached from a public function",
    "Tests use detectors with default twist, binning or pixel size, for which a dropped or swapped "
    "parameter is invisible.",
    ["detectors/_ebsd_detector.py", "signals/ebsd.py"],
    [("crop() passes every parameter", S + "detectors/_ebsd_detector.py"),
     ("detector rebuilt when slicing", S + "signals/ebsd.py")],
    ["parameters of derived detectors"],
    "value-provenance analysis of constructor arguments",
    "Decides which parameter of the source detector each parameter of a derived detector comes "
    "from. New shapes and projection centers must be given; which ones they are is decided for "
    "slicing, cropping, rebinning, downsampling and grid extraction of small symbolic signals.",
)
prop(
    "C08", "Projection centers convert between conventions as documented",
    "For every detector shape, binning and pixel size, a projection center given in a named "
    "convention (Bruker; TSL/EDAX/Amatek; Oxford/Aztec; EMsoft 4 and 5), in any letter case, is stored as its Bruker "
    "equivalent by the documented formula; the conversions out are the inverses, unknown names raise, and each file "
    "reader hands its file's projection centers to the convention of that vendor.",
    ["inputs", "configurations"],
    "all detector shapes, binnings, pixel sizes and projection centers; every accepted convention name",
    "Tests compare a few numbers, mostly for square detectors or binning 1, where the formulas of "
    "different vendors coincide.",
    ["detectors/_ebsd_detector.py", "io/plugins/oxford_h5ebsd/_api.py", "io/plugins/edax_h5ebsd/_api.py",
     "io/plugins/bruker_h5ebsd/_api.py", "io/plugins/emsoft_ebsd/_api.py", "io/plugins/kikuchipy_h5ebsd/_api.py"],
    [("conversion methods", S + "detectors/_ebsd_detector.py")],
    ["EBSDDetector.pc and pc_*()", "detectors of signals read from file"],
    "interprocedural value numbering with algebraic normal forms",
    "Decides equality of rational-function normal forms computed by dataflow over the source, for "
    "all real inputs. Trusted: the documented formulas; real arithmetic stands for floating point.",
)
prop(
    "C09", "Detector pixel, gnomonic and sample coordinates are consistent",
    "For every detector shape, projection center, binning, pixel size, tilt, azimuthal, twist and sample tilt: "
    "gnomonic bounds, ranges, corner distance, sizes and Euler angles of the detector follow from those by their "
    "documented formulas; conversions between pixel and gnomonic coordinates are inverse to each other and use the "
    "projection center of the given position; a cropped detector sees the kept pixels in the same directions; "
    "and the sample-to-detector matrix is the documented rotation, orthonormal with determinant 1.",
    ["inputs", "configurations"],
    "all real values of shape, projection center, binning, pixel size and the four angles",
    "Tests compare a few numbers on detectors with zero azimuthal or twist, square shapes or one projection center, "
    "where wrong formulas agree with right ones.",
    ["detectors/_ebsd_detector.py", "detectors/_convert_detector_coordinates.py", "_utils/_gnonomic_bounds.py"],
    [("gnomonic bounds, crop() and sample_to_detector", S + "detectors/_ebsd_detector.py"),
     ("coordinate conversion", S + "detectors/_convert_detector_coordinates.py")],
    ["properties and methods of EBSDDetector"],
    "interprocedural value numbering with algebraic normal forms",
    "Decides equality of normal forms in shape, projection center and angles for all real inputs. Scales per pixel "
    "(x_scale, y_scale) are not claimed. Trusted: the documented definitions, orix's rotation from a matrix.",
)
prop(
    "C10", "Patterns are projected from the master pattern by one geometry",
    "Every pattern projected from a master pattern (simulation, dictionary, refinement) follows one rule: each detector "
    "pixel looks along the unit vector from the source point to the pixel's centre, taken from the detector to the "
    "sample frame and turned by the crystal rotation; it takes the upper hemisphere exactly where that vector points "
    "up, at the vector's place in the square Lambert projection, by bilinear interpolation. With several "
    "projection centers, each pattern uses its own rotation and projection center, and masked pixels are left out.",
    ["inputs", "configurations"],
    "all rotations, projection centers, detector shapes and tilts, masks and master pattern sizes",
    "Tests compare a few simulated patterns to stored ones, mostly on square detectors and symmetric crystals, where "
    "swapped axes, hemispheres or pixel halves hardly show.",
    ["signals/util/_master_pattern.py", "_utils/numba.py", "signals/ebsd_master_pattern.py"],
    [("direction cosines and projection", S + "signals/util/_master_pattern.py"),
     ("rotation of vectors", S + "_utils/numba.py")],
    ["direction cosines, rotated vectors, interpolation weights and arguments"],
    "interprocedural value numbering with algebraic normal forms",
    "Decides normal-form equality for the functions used by every projection, and the arguments they hand on. The "
    "Lambert mapping itself is taken as defined by the code; intensity scaling is not claimed.",
)
prop(
    "C11", "Refinement optimizes and reports what it says",
    "For every kind of refinement (orientation, projection center or both), optimizer, trust region and pseudo-symmetry "
    "operators: the optimization of a pattern starts at that pattern's own orientation and projection center (then at each "
    "pseudo-symmetric one), stays within start -/+ the trust region, given in degrees for angles, and minimizes one minus the "
    "similarity of that pattern with the pattern projected at the trial parameters on the given detector, energy and mask; the "
    "best start's score, number of evaluations, operator index, rotation and projection center are returned at that point.",
    ["inputs", "configurations"],
    "all crystal maps, detectors, masks, trust regions, and starts; 3 modes, SciPy and NLopt optimizers, 0 or 1 operators",
    "Tests refine a few near-identical patterns with one detector, where reading another pattern's start, bounds or projection "
    "center, or a wrong unit of a bound, gives nearly the same answer.",
    ["indexing/_refinement/_refinement.py", "indexing/_refinement/_solvers.py",
     "indexing/_refinement/_objective_functions.py", "indexing/_refinement/__init__.py"],
    [("set-up and chunk functions", S + "indexing/_refinement/_refinement.py"),
     ("solvers", S + "indexing/_refinement/_solvers.py"),
     ("objective functions", S + "indexing/_refinement/_objective_functions.py")],
    ["arguments of the optimizers, CrystalMap and detector returned by refine_*()"],
    "interprocedural value numbering with algebraic normal forms",
    "Decides which input each optimizer argument and each returned column comes from, and by which formula. That an "
    "optimizer finds the optimum is not claimed. Trusted: dask's block order, SciPy's and NLopt's use of their arguments.",
)
prop(
    "C15", "Words an option does not know are refused, documented words are accepted",
    "Wherever a public function chooses what to do by the value of a text option (filter domain, operation, plot mode, "
    "projection, hemisphere, coordinate format, optimizer, transformation, plotting backend, ...), a value that is none of "
    "the supported words raises an error instead of silently selecting one of the alternatives, whatever the other "
    "arguments; every documented word has a path on which the call returns; where letter case is ignored it is ignored throughout; a given file extension decides the format saved in.",
    ["inputs", "configurations"],
    "every text option of every exported function and method, every value, every combination with other options",
    "Tests try one or two wrong words for some options; an `else` branch quietly standing for every other word gives a "
    "plausible but wrong result for a misspelt option.",
    ["signals/ebsd.py", "pattern/_pattern.py", "detectors/_ebsd_detector.py", "detectors/_fit_projection_center.py",
     "simulations/kikuchi_pattern_simulator.py", "indexing/_refinement/_refinement.py", "_utils/vector.py",
     "signals/_kikuchi_master_pattern.py"],
    [("comparisons of the option with its alternatives", S + "pattern/_pattern.py"),
     ("parse_hemisphere(), parse_projection()", S + "_utils/vector.py")],
    ["whether a call with a word returns or raises"],
    "interprocedural abstract interpretation with a value unlike every alternative",
    "Decides that no path returns normally once such a value has been compared with the alternatives. Options handed to "
    "another library or made part of a text are open and not decided; option values other than words are not claimed.",
)
prop(
    "C16", "Every option reaches the parameter it names and none is ignored",
    "A value passed to a function's option arrives, through every level of internal calls, keyword dictionaries and "
    "attributes, at the parameter of that name and never in the place of another one; no option of any function is "
    "without effect, replaced before it is used, or handed to functions that ignore it; and a function that hands an "
    "option on does so in every call to a function that takes it, unless the option takes part in that call otherwise.",
    ["inputs", "configurations"],
    "every parameter of every function of the package, every chain of calls through it",
    "Tests mostly use default values, for which a dropped, replaced or exchanged option gives the same result.",
    ["signals/ebsd.py", "signals/_kikuchipy_signal.py", "signals/ebsd_master_pattern.py", "signals/virtual_bse_image.py",
     "imaging/vbse.py", "indexing/_refinement/_refinement.py", "pattern/chunk.py"],
    [("methods of subclasses handing options on", S + "signals/virtual_bse_image.py"),
     ("refine_*() methods", S + "signals/ebsd.py")],
    ["arguments bound to parameters in every call"],
    "interprocedural dataflow of parameter symbols with a least fixpoint over uses",
    "Decides that parameters flow to where they are named. What a parameter does where it is used is not claimed here. "
    "Trusted: a parameter given to another library is used by it.",
)
prop(
    "C41", "Similarity metrics compute the normalized cross-correlation and dot product",
    "The score the normalized cross-correlation (normalized dot product) metric gives for an experimental and a dictionary "
    "pattern is its mathematical definition on the pixels left by the signal mask, with rows for the experimental patterns "
    "left by the navigation mask and columns for the dictionary patterns, in order, however the patterns are arranged, "
    "chunked or stored; the sign tells that greater is better.",
    ["inputs", "configurations"], "all patterns, shapes, masks, NumPy and dask arrays, calls and step by step use",
    "Tests compare a handful of random patterns.",
    ["indexing/similarity_metrics/_normalized_cross_correlation.py", "indexing/similarity_metrics/_normalized_dot_product.py"],
    [("prepare_experimental(), match()", S + "indexing/similarity_metrics/_normalized_cross_correlation.py")],
    ["score"],
    "value numbering of array programs: generic elements over named axes compared with the definition",
    "Decides the formula in exact arithmetic; rounding in the chosen data type is not claimed. Trusted: NumPy's and dask's "
    "reductions, reshapes and einsum.",
)
prop(
    "C42", "Dictionary indexing returns the best matches in order",
    "For each experimental pattern indexed (those the navigation mask leaves), the crystal map holds the scores, simulation "
    "indices and rotations of the min(keep_n, dictionary size) simulations most similar by the metric in the whole dictionary, "
    "best first (highest, or lowest where lower is better), whatever the number of simulations per iteration and whether the "
    "dictionary is lazy; the map has the shape and steps of the scan, with the points masked left out.",
    ["inputs", "configurations"], "all scores, keep_n and iteration sizes, metrics of either sign, masks, lazy or not",
    "Tests use one tiny dictionary and metrics where greater is better.",
    ["indexing/_dictionary_indexing.py", "signals/ebsd.py", "indexing/similarity_metrics/_similarity_metric.py"],
    [("dictionary_indexing()", S + "signals/ebsd.py"), ("_match_chunk()", S + "indexing/_dictionary_indexing.py")],
    ["simulation indices, scores and rotations in the crystal map"],
    "abstract interpretation over tables of ranks",
    "A dictionary of 7 simulations divided in 7 ways stands for any. Scores are distinct: the order of equal ones is not "
    "claimed. Trusted: dask's topk and argtopk, NumPy's sorts.",
)
prop(
    "C43", "Background correction and averaging give the documented intensities",
    "Static and dynamic background removal and estimation, rescaling, normalization, Fourier filtering, averaging with "
    "neighbours, adaptive histogram equalization and image quality give, for every pattern and pixel, the value of their "
    "definition: the background subtracted or divided by is the one asked for, scaled as asked for, the filter has the width "
    "and window asked for (defaults as documented), neighbours count as weighted by the window wherever the map is cut "
    "into blocks, and the result spans the range of its data type or the range asked for, in place or not, lazy or not.",
    ["inputs", "configurations"], "all patterns, pattern and map shapes, backgrounds, windows, ranges and data types",
    "Tests compare stored intensities of a few, mostly square, patterns.",
    ["pattern/_pattern.py", "pattern/chunk.py", "signals/ebsd.py", "signals/_kikuchipy_signal.py"],
    [("kernels", S + "pattern/_pattern.py"), ("methods", S + "signals/ebsd.py")], ["pattern intensities"],
    "value numbering of array programs: generic elements over named axes compared with the definition",
    "Decides the formulas in exact arithmetic; rounding and overflow in the data types are not claimed, nor is the content of "
    "the Fourier filter with padding (its arguments are decided). Trusted: SciPy's filters and transforms, scikit-image's "
    "equalization, HyperSpy's map(), dask's block functions.",
)
prop(
    "C44", "Refinement improves the similarity",
    "The refined orientation or projection center has a similarity score at least that of the start.",
    ["inputs", "configurations"], "all patterns, starts and optimizers",
    "Tests use near-perfect starts.",
    ["indexing/_refinement/_solvers.py"], [("optimizer calls", S + "indexing/_refinement/_solvers.py")], ["scores"],
    na="Depends on what the external optimizers find at run time; what they are given and what is reported is decided in C11.",
)
prop(
    "C45", "Hough indexing finds the orientation to the stated accuracy",
    "Simulated patterns are Hough indexed to within the angular resolution of their true orientation.",
    ["inputs"], "all orientations, detectors and phases",
    "Tests index nine patterns.",
    ["indexing/_hough_indexing.py"], [("_hough_indexing()", S + "indexing/_hough_indexing.py")], ["orientations"],
    na="A numerical accuracy of an external library (PyEBSDIndex) over run-time data.",
)
prop(
    "C46", "Merged crystal maps take the best phase in each point",
    "Merging maps of single phases gives, in each point, the phase, rotations, scores and simulation indices of the map whose "
    "mean of the mean_n_best best scores is best there (greatest, or lowest where lower is better) among the maps the navigation "
    "masks leave the point in, not indexed where no map indexed it; equal phases are one phase, different ones of one name "
    "two; the merged scores are those of all maps, best first, with their simulation indices; the merged map has the "
    "shape, steps and unit of the maps.",
    ["inputs", "configurations"], "all scores and rotations, numbers of maps and scores per point, masks, score signs, phase lists",
    "Tests merge maps of a few points with equal steps along x and y.",
    ["indexing/_merge_crystal_maps.py"], [("merge_crystal_maps()", S + "indexing/_merge_crystal_maps.py")], ["merged map"],
    "value numbering with the order of scores fixed case by case; generic points over named axes",
    "Scores are distinct; cases of the order of scores of up to three maps with up to three scores each. Trusted: NumPy's sorts, "
    "orix' CrystalMap and PhaseList by their contract.",
)
prop(
    "C47", "Maps of how alike neighbours are compare the neighbours of the window",
    "In every point, the matrix of neighbour dot products holds at each place of the window the product of the pattern there "
    "with the one in the point (centred and normalized as asked for), nothing (NaN) outside the map and where the window has "
    "none; the average neighbour dot product is the mean over these without the point itself, from the patterns or from the "
    "matrices alike; the orientation similarity is the mean number of best matches shared with each neighbour of the footprint "
    "inside the map (per n if normalized), for each n asked for. Chunks of the map change nothing, and matrices given are "
    "left as they are.",
    ["inputs", "configurations"], "all patterns and lists of best matches; windows of 12 shapes, even ones too; maps of one and two "
    "axes, chunked in four ways, lazy or not",
    "Tests compare a few values of small unchunked maps with windows of odd size.",
    ["indexing/_orientation_similarity_map.py", "signals/util/_map_helper.py", "signals/ebsd.py", "signals/util/_dask.py",
     "filters/window.py"],
    [("orientation_similarity_map()", S + "indexing/_orientation_similarity_map.py"),
     ("_neighbour_dot_products()", S + "signals/util/_map_helper.py"),
     ("_get_chunk_overlap_depth()", S + "signals/util/_dask.py")], ["values in the maps"],
    "value numbering of array programs: every point of small maps with patterns of any content",
    "The maps have up to 4 x 5 points, which holds every kind of point (corners, edges, inside, chunk borders) for the windows "
    "used. Exact arithmetic. Trusted: SciPy's generic_filter, dask's map_overlap, NumPy.",
)
prop(
    "C48", "Kikuchi lines and zone axes are drawn where diffraction puts them",
    "The line of a visible lattice plane runs between the two points of the plane's trace at the detector's gnomonic radius, in "
    "each pattern of a map, for any crystal, orientation, projection center per point and detector shape; a zone axis is given "
    "where the axis common to two visible planes meets the screen, for all such axes within a pixel of the detector and no "
    "others. Pixel coordinates are the gnomonic ones on the detector's pixels. Lines, circles and the projection center drawn "
    "for a pattern, or as markers of a map, are the ones of that pattern. The overlay of the detector plot draws the same.",
    ["inputs", "configurations"], "all crystals, orientations, reflectors, projection centers, detector and map shapes",
    "Tests compare stored coordinates of cubic nickel on a square detector, where transposed lattices and exchanged axes cannot show.",
    ["simulations/kikuchi_pattern_simulator.py", "simulations/_kikuchi_pattern_features.py",
     "simulations/_kikuchi_pattern_simulation.py", "simulations/_geometrical_simulation.py"],
    [("on_detector()", S + "simulations/kikuchi_pattern_simulator.py"),
     ("_get_geometrical_simulation()", S + "simulations/_geometrical_simulation.py")], ["coordinates", "collections", "markers"],
    "abstract interpretation of array programs over exact numbers, two crystals of low symmetry and points of a map as generic cases",
    "Two crystals (triclinic, orthorhombic), 12 reflectors, 4 orientations and projection centers, 3 detector and 3 map shapes stand "
    "for any. Trusted: orix' and diffsims' vectors, rotations and lattices by their contract. Labels are not compared.",
)
prop(
    "C49", "Decomposition models reproduce the signal",
    "The model from all components equals the decomposed signal; from selected components it is their sum.",
    ["inputs"], "all signals and component selections", "Tests use one small signal.",
    ["signals/_kikuchipy_signal.py", "signals/ebsd.py"], [("get_decomposition_model()", S + "signals/ebsd.py")], ["model"],
    na="The model is built by HyperSpy from numerical factors; only restoring the state is decided (C02).",
)
prop(
    "C50", "Windows and filters are the documented ones, for every shape",
    "A window has the shape, coefficients, name and circularity asked for (circular, rectangular, Gaussian, modified Hann, "
    "lowpass, highpass, any of SciPy's, or an array); its origin, numbers of neighbours, distances to the origin and "
    "compatibility with a map follow from its shape, axes of length 1 included. Transfer functions of lowpass and highpass "
    "filters hold in every pixel the value of the documented formula for its distance, cutoff and width. Filtering an image "
    "with a window in the frequency domain or in the spatial domain is the documented product or correlation in every pixel, "
    "edges included, however long the transform is padded, and leaves image and window as they are.",
    ["inputs"], "all images and window coefficients; window shapes of 1 to 3 axes and length 1 to 6, cutoffs within and beyond the shape",
    "Tests compare stored arrays of a few windows of odd, mostly square shape.",
    ["filters/window.py", "filters/fft_barnes.py", "pattern/_pattern.py"],
    [("Window", S + "filters/window.py"), ("lowpass_fft_filter()", S + "filters/window.py"), ("_fft_filter()", S + "filters/fft_barnes.py")],
    ["coefficients of the window", "filtered image"],
    "value numbering of array programs: one symbol per pixel and coefficient",
    "Shapes are samples of all parities and of length-1 axes; coefficients and pixels are any numbers. Trusted: the Fourier "
    "transforms themselves (described as cyclic convolution), SciPy's window functions, NumPy.",
)
prop(
    "C51", "The moving-screen projection center is where pattern features move away from",
    "Calibration with a moving screen gives, for any camera motion, pixel size and binning, in each convention: the lines "
    "between all pairs of points in the two patterns and between each point's two positions, their lengths, all places where "
    "the latter meet, those within the detector, the projection center from each (PCx and PCy over the detector's width and "
    "height, PCz from the ratio of line lengths and the camera motion) and their mean.",
    ["inputs"], "all camera motions, pixel sizes and binnings; two to four features on tall, wide and square detectors, with motions "
    "that are parallel or meet outside the detector",
    "Tests compare one calibration, where points move apart from inside the detector.",
    ["detectors/_calibration.py"],
    [("PCCalibrationMovingScreen", S + "detectors/_calibration.py")], ["attributes of the calibration"],
    "value numbering of array programs over described sets of points",
    "Points are twelve described sets with exact coordinates, as the order of line intersections decides which are used; motion, "
    "pixel size and binning are symbols. Drawing is not covered.",
)
prop(
    "C52", "Virtual backscatter images hold what their detector region received",
    "The image of a detector region holds in each map point the sum of the pattern's pixels in it. Grid tiles divide the detector "
    "evenly; the region of a tile or of several spans exactly these, whatever scale and offset the signal axes have, and the images "
    "from the grid hold at [row, column] the image of that tile, with the map's axes. Color images hold in each channel the sum over "
    "the regions or tiles given for it, normalized, weighted and rescaled as documented, at the bit depth asked for. Grid lines, tile "
    "labels and colored rectangles are drawn where the tiles are. Grids with too many tiles or another dimension and tiles outside the grid "
    "are refused.",
    ["inputs"], "all patterns, axis scales and offsets; six shapes of detector and grid, evenly divided or not; maps of one to three axes",
    "Tests compare some intensities on square detectors with unit pixels and no offset.",
    ["imaging/vbse.py", "signals/ebsd.py", "signals/virtual_bse_image.py", "_utils/_transfer_axes.py"],
    [("VirtualBSEImager", S + "imaging/vbse.py"), ("get_virtual_bse_intensity()", S + "signals/ebsd.py")],
    ["images", "regions", "markers"],
    "value numbering of array programs: sums over any region are symbols",
    "HyperSpy's regions of interest, sums over axes and markers are described by their source; rounding of region edges between pixels follows it.",
)
prop(
    "C53", "Master patterns are converted, looked up and projected as they say",
    "A stereographic master pattern converted to the square Lambert projection holds, for every energy and hemisphere, at each "
    "point of the square the intensity of the stereographic pattern in the direction the point stands for, with the same "
    "hemisphere, phase and axes; directions and points of the square are related by the equal-area formulas, in every octant "
    "and at the poles. Patterns are projected from the master pattern of the energy asked for (the last if none), directions "
    "pointing up from the upper hemisphere's and down from the lower's (one for both if only one is stored). The projected "
    "signal has the map shape of the rotations, the detector's shape and projection centers, a crystal map of the rotations and "
    "phase, the data type asked for and its range; projection centers that fit neither the rotations nor are one are refused.",
    ["inputs", "configurations"],
    "all directions, energies, hemispheres, map shapes, numbers of projection centers, data types, lazy or computed",
    "Tests convert and project a few square cubic patterns from one energy, for which swapped axes, hemispheres or energies are "
    "invisible, with detectors of one projection center or one for each pattern of a plain map.",
    ["signals/_kikuchi_master_pattern.py", "signals/ebsd_master_pattern.py", "signals/util/_master_pattern.py"],
    [("conversion and lookup", S + "signals/_kikuchi_master_pattern.py"),
     ("projection of patterns", S + "signals/ebsd_master_pattern.py"),
     ("equal-area formulas", S + "signals/util/_master_pattern.py")],
    ["converted master patterns", "projected signals"],
    "interprocedural value numbering of small master patterns",
    "Decides every value of converted and projected patterns for small symbolic master patterns, maps and detectors, and the "
    "formulas at sample points of each of their regions. Trusted: orix's stereographic projection, SciPy's interpolation, dask's "
    "map over blocks. Rounding is not considered.",
)
prop(
    "C22", "Files of every vendor are read with the scan they describe",
    "Loading a Bruker, EDAX or Oxford h5ebsd file, an EDAX or Oxford binary file, a NORDIF file (with setting file, given sizes "
    "or calibration patterns), an EMsoft EBSD or master pattern file or a folder of images gives a signal whose patterns are "
    "read from the place and in the order, shape and data type the file states, with one axis per data axis named, sized and "
    "scaled as the map and the patterns are (maps, line scans in either direction and single patterns alike), a crystal map of "
    "the scan's shape and steps, a detector whose shape, tilts, binning and projection center (converted from the vendor's "
    "convention) are the stored ones, the stored static background and microscope settings; for master patterns the "
    "hemispheres, energies and projection asked for; whether loaded lazily or not.",
    ["inputs"],
    "every file of the layouts above: all sizes, steps, angles and projection centers (symbols), four map shapes, lazy or not",
    "Each format's tests read one or two sample files, mostly square maps and patterns with equal steps, where exchanged rows "
    "and columns, steps, tilts or hemispheres give the same signal.",
    ["io/plugins/bruker_h5ebsd/_api.py", "io/plugins/edax_h5ebsd/_api.py", "io/plugins/oxford_h5ebsd/_api.py",
     "io/plugins/edax_binary/_api.py", "io/plugins/oxford_binary/_api.py", "io/plugins/nordif/_api.py",
     "io/plugins/emsoft_ebsd/_api.py", "io/plugins/_emsoft_master_pattern.py", "io/plugins/ebsd_directory/_api.py",
     "io/plugins/nordif_calibration_patterns/_api.py"],
    [("scan2dict() of the h5ebsd readers", S + "io/plugins/_h5ebsd.py"),
     ("file_reader() of the binary readers", S + "io/plugins/edax_binary/_api.py"),
     ("EMsoftMasterPatternReader.read()", S + "io/plugins/_emsoft_master_pattern.py")],
    ["dictionary returned by a reader"],
    "value numbering of the readers over described files",
    "Decides what the readers return for the layouts written down in the rule (taken from the readers, the documentation and "
    "the sample files); other layouts and damaged files are not claimed. Orders of acquisition other than map order (Bruker "
    "regions of interest, Oxford pattern starts) are only followed as far as patterns and projection centers share them.",
)
