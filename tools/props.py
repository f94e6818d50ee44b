"""Source of properties.jsonl and vmon/meta.json's property list (run: python tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
M = "tslearn/metrics/"
p("P01", "DTW is the optimum over admissible alignments, and its path attains it",
  "For any two series (any lengths, features, ground metric or precomputed costs, with or without a global constraint), the DTW score equals the smallest total cost over all admissible alignments, and the returned path is an admissible alignment that attains it. DTW is symmetric, zero on identical series, never grows when the constraint is relaxed, and refuses series that have no alignment.",
  "inputs configurations", "every pair of series, every ground metric and every feasible Sakoe-Chiba or Itakura constraint",
  "The tests compare a few hand-computed scores; they fix neither long, tied, unequal-length or multivariate series under constraints nor the optimality of the path.",
  [M+"_dtw.py", M+"utils.py", M+"_masks.py"],
  [("accumulated cost recursion", M+"_dtw.py"), ("path backtracking", M+"utils.py")])
p("P02", "Fréchet distance is the bottleneck optimum, and its path attains it",
  "For any two series, ground metric and feasible constraint, the Fréchet score equals the smallest possible largest step cost over admissible alignments, the returned path attains it, and the cross-distance matrix applies the same constraint. It is a metric-like distance: symmetric, zero on identical series, subject to the triangle inequality, and at most DTW.",
  "inputs configurations", "every pair (triple) of series, ground metric and feasible constraint",
  "Tests use a handful of short literals, and never compare constrained cross-distances with the pairwise ones.",
  [M+"_frechet.py", M+"utils.py"], [("bottleneck recursion", M+"_frechet.py"), ("path backtracking", M+"utils.py")])
p("P03", "LCSS counts a maximum set of matches and its path exhibits one",
  "For any two series, threshold, ground metric and feasible constraint, the LCSS score is the largest number of strictly increasing matched pairs (within the threshold, inside the constraint region) divided by the shorter length, and the returned path is such a set of pairs; every call returns. The score grows with the threshold and with the region, lies in [0, 1], and is 1 on identical series.",
  "inputs configurations", "every pair of series, threshold and feasible constraint, on both backends",
  "Tests check a few literals without a constraint that excludes matches; whether the path stays in the region, matches the score, or is returned at all is never checked.",
  [M+"dtw_variants.py"], [("LCSS recursion", M+"dtw_variants.py"), ("LCSS path backtracking", M+"dtw_variants.py")])
p("P04", "Constraint regions are the documented band and parallelogram",
  "For any two lengths, the Sakoe-Chiba region is the documented band around the diagonal widened by the length difference, the Itakura region is the documented parallelogram, and both backends build the same region. A constraint that leaves a time step without any admissible cell, an ambiguous pair of constraint parameters, or an unknown constraint name is refused rather than ignored.",
  "inputs configurations", "every pair of lengths, radius and slope, on both backends",
  "Tests pin a few small masks; off-by-one errors for other shapes, radii, slopes or in one backend only pass them.",
  [M+"_masks.py"], [("band and parallelogram construction", M+"_masks.py")])
p("P05", "Envelopes bracket the series and LB_Keogh never exceeds banded DTW",
  "For any series and radius, the lower and upper envelopes are the windowed minimum and maximum. For equal-length univariate series the LB_Keogh bound is the distance to that envelope and never exceeds DTW restricted to the same band.",
  "inputs", "every series, pair of equal-length series and radius",
  "A lower bound is a for-all statement; the tests look at single literals.",
  [M+"dtw_variants.py"], [("envelope windows", M+"dtw_variants.py"), ("bound accumulation", M+"dtw_variants.py")])
p("P06", "Soft-DTW value and soft alignment match their definition",
  "For any two series, smoothing and feasible constraint, soft-DTW is the soft minimum of alignment costs, its soft alignment is the derivative of that value with respect to the local costs, and at zero smoothing it is squared DTW and a hard alignment in the pairwise and cross forms alike. It never exceeds squared DTW, decreases with the smoothing, and its normalised form is zero between a series and itself.",
  "inputs configurations", "every pair of series, smoothing value (including 0 and extremes) and feasible constraint",
  "Tests compare a few values; gradients under constraints, tiny or zero smoothing and unequal lengths are not sampled.",
  [M+"_soft_dtw.py", M+"softdtw_variants.py", M+"soft_dtw_fast.py"],
  [("soft-min recursion", M+"_soft_dtw.py"), ("backward recursion", M+"_soft_dtw.py")])
p("P07", "The global alignment kernel is a normalised kernel",
  "For any set of series and bandwidth, the global alignment kernel equals its definition as a sum over alignments, is symmetric with unit diagonal and values in [0, 1], and gives a positive semi-definite similarity matrix that agrees with the pairwise values; a zero bandwidth is refused. The suggested bandwidth is positive on non-degenerate data, depends only on observed points, and is reproducible from its seed.",
  "inputs", "every finite set of series (lengths where the kernel is representable) and bandwidth",
  "Positive semi-definiteness and definition-conformance range over all datasets; tests check a few numbers.",
  [M+"_gak.py"], [("alignment kernel recursion", M+"_gak.py"), ("normalisation", M+"_gak.py")])
p("P08", "Sub-sequence and length-limited DTW return true optima and valid paths",
  "Sub-sequence DTW returns the best alignment of the whole query with any contiguous part of the long series, and its path is such an alignment with that cost, ending where asked. Length-limited DTW returns the best alignment among those not longer than the limit, with a path that attains it, equals DTW when the limit is loose, and refuses limits below the longer series.",
  "inputs", "every query, long series, end position and length limit",
  "Tests cover two or three literals each.",
  [M+"dtw_variants.py"], [("sub-sequence recursion and backtracking", M+"dtw_variants.py"), ("length-indexed recursion", M+"dtw_variants.py")])
p("P09", "Canonical time warping returns an alignment that fits its projection",
  "For any two series (possibly with different feature counts), CTW returns an admissible alignment, inside the requested region, that is optimal between the two series as projected by the model it returns, together with the cost of its alignment. With a single iteration it is DTW on the leading features. Inputs are left untouched, and the score-only form returns the same score.",
  "inputs configurations", "every pair of non-degenerate series, component count, iteration budget and constraint",
  "Tests check a few doc examples and never relate path, projection and score.",
  [M+"ctw.py"], [("alternating projection and alignment", M+"ctw.py")])
p("P10", "Cross-distance matrices equal the pairwise distances",
  "For every elastic metric, entry (i, j) of the cross-distance matrix equals the pairwise measure between series i and j with the same parameters, for one or two datasets of any (different) lengths. The one-dataset matrix is symmetric, and the result does not depend on the number of jobs.",
  "inputs configurations schedules", "every dataset (pair), metric, parameter set, number of workers and interleaving",
  "Tests compare a few matrices with default parameters and rarely with several workers or different lengths.",
  [M+"utils.py", M+"_dtw.py", M+"_frechet.py", M+"_soft_dtw.py", M+"_gak.py", M+"ctw.py"],
  [("generic cross-distance loop with optional threads", M+"utils.py")])
p("P11", "Both numerical backends compute the same measures",
  "Every metric, mask, path and utility gives the same result, up to rounding at the precision of its input, through the NumPy and the PyTorch backends, and returns the array type of the chosen backend. Computing on one backend never modifies the caller's arrays or tensors.",
  "inputs configurations", "every input accepted by both backends, in either array type and floating precision",
  "Backend tests run each function on one literal; divergence appears on other shapes, constraints and magnitudes.",
  ["tslearn/backend/backend.py", "tslearn/backend/numpy_backend.py", "tslearn/backend/pytorch_backend.py", M+"utils.py"],
  [("backend dispatch", "tslearn/backend/backend.py"), ("vectorised anti-diagonal recursion", M+"utils.py")])
p("P12", "Gradients through the measures and the Soft-DTW loss are correct",
  "Automatic differentiation through DTW and soft-DTW on the PyTorch backend, and through the batched Soft-DTW loss, gives the derivative of the returned value for every batch element, in the precision of its input, with or without normalisation and constraints. The loss equals soft-DTW of each pair and treats batch elements independently.",
  "inputs configurations", "every batch, smoothing, constraint, precision and ground cost",
  "Tests check that backward runs and one value; a wrong derivative trains silently.",
  [M+"soft_dtw_loss_pytorch.py", M+"_soft_dtw.py", M+"utils.py"],
  [("custom backward pass", M+"soft_dtw_loss_pytorch.py"), ("soft alignment recursion", M+"_soft_dtw.py")])
p("P13", "Trailing padding never changes a result",
  "Padding shorter series of a variable-length dataset with trailing missing values, by any amount, changes no measure, barycenter, neighbour, kernel, cluster, forecast or transform of the observed part. Outputs that keep the time axis are missing exactly where the input is padded.",
  "inputs configurations", "every variable-length dataset, amount of padding, metric and estimator that supports variable length",
  "Tests use one small variable-length dataset per estimator with the minimal padding.",
  ["tslearn/utils/utils.py", M+"utils.py", "tslearn/preprocessing/preprocessing.py", "tslearn/barycenters"],
  [("length detection and stripping", "tslearn/utils/utils.py")])
p("P14", "Dataset formatting keeps every value in its place",
  "Turning any accepted collection (lists, arrays, tensors, mixed lengths and types) into a dataset keeps every value at its series, time and feature index, pads only at the end of shorter series, never alters the caller's data, and is idempotent. Length, equality-of-size and dimension checks agree with that layout, and inputs whose feature counts conflict are refused. Estimators read the same numbers alike from every accepted container and type.",
  "inputs", "every collection of series in any accepted container, type and length mix",
  "Tests format a few literals.",
  ["tslearn/utils/utils.py"], [("formatting and padding", "tslearn/utils/utils.py"), ("length detection", "tslearn/utils/utils.py")])
p("P15", "Text files and other libraries' formats round-trip",
  "Saving a dataset to text and loading it back, and converting it to the format of any supported library and back, returns the same series in the same order with the same values (up to printed precision for text), including variable lengths and several features where the format allows them. Formats that cannot hold a dataset refuse it.",
  "inputs", "every dataset the target format can hold",
  "Tests round-trip one or two small literals per format; order, ids, lengths and feature layout vary beyond them.",
  ["tslearn/utils/cast.py", "tslearn/utils/utils.py"], [("converters", "tslearn/utils/cast.py"), ("text reader and writer", "tslearn/utils/utils.py")])
p("P16", "A saved and reloaded model behaves exactly like the original",
  "Saving a fitted estimator in any supported format (JSON, HDF5, pickle files, or Python pickling and cloning) and loading it yields one with the same parameters and the same predictions and transforms on any data, and saving leaves the original unchanged. Saving twice never mixes models, and an unfitted model is refused.",
  "inputs configurations histories", "every serialisable estimator, configuration, training set and format",
  "Tests save one default configuration of each model.",
  ["tslearn/bases/bases.py", "tslearn/hdftools/hdftools.py"], [("model packaging", "tslearn/bases/bases.py"), ("HDF5 recursion", "tslearn/hdftools/hdftools.py")])
p("P17", "Scalers deliver the promised range or moments for every series",
  "Min-max scaling maps each series (and feature) onto exactly the requested range, mean-variance scaling gives it the requested mean and standard deviation, constant series included, preserving order and missing padding. Results for one series do not depend on the others when scaling is per series, and the caller's data is untouched.",
  "inputs configurations", "every dataset, value range and per-series or dataset-wide setting",
  "Tests check literals with easy magnitudes; constants, offsets, ties and padding are not varied.",
  ["tslearn/preprocessing/preprocessing.py"], [("per-series statistics", "tslearn/preprocessing/preprocessing.py")])
p("P18", "Resampling and imputation respect the observed values",
  "Resampling to any size of at least two is linear interpolation at evenly spaced positions over the observed extent of each series and keeps its end points; resampling to the same size is the identity. Imputation fills missing values by the chosen rule, from observed values of the same series and feature only, never alters observed ones, and keeps trailing padding when asked to.",
  "inputs configurations", "every dataset, target size, missing-value pattern and method",
  "Tests try a few patterns per method.",
  ["tslearn/preprocessing/preprocessing.py"], [("interpolation", "tslearn/preprocessing/preprocessing.py"), ("fill rules", "tslearn/preprocessing/preprocessing.py")])
p("P19", "Feature synchronisation interpolates onto the reference feature's time axis",
  "Synchronising a dataset puts every feature of a series on the time axis of the reference feature of that series: each feature is linearly interpolated at the reference's observed time stamps (or evenly spaced positions when none are given), the reference feature itself is unchanged, rows beyond the reference's length are missing, and the output is as long as the longest reference. Series are independent of each other, the caller's data and time stamps are untouched, and non-increasing time stamps or mismatched shapes are refused.",
  "inputs configurations", "every dataset with features of different lengths, reference feature and date time stamps",
  "Tests check shapes and a few literals.",
  ["tslearn/preprocessing/_synchronizer.py"], [("per-feature interpolation", "tslearn/preprocessing/_synchronizer.py")])
p("P20", "Symbolic representations are faithful and their distances are lower bounds",
  "PAA averages equal frames, SAX maps each average to the symbol of its Gaussian quantile bin, and the 1d variant adds quantised slopes; inverse transforms rebuild full-length series from those symbols. Distances between representations agree with the one computed from raw series, are symmetric, zero on equal symbols, and, for averages and plain symbols with evenly divisible frames, never exceed the distance between the (scaled) series they represent.",
  "inputs configurations", "every dataset, frame count, alphabet size and scaling option",
  "Lower-bounding is a for-all claim; tests use a few literals with even divisions.",
  ["tslearn/piecewise/piecewise.py", M+"cysax.py", M+"sax.py"], [("frame averaging and quantisation", "tslearn/piecewise/piecewise.py"), ("symbol distances", M+"cysax.py")])
p("P21", "Barycenters average, and iterative ones never get worse",
  "The Euclidean barycenter is the weighted mean; DTW and soft-DTW barycenters have the requested size and feature count, do not cost more than their initialisation, honour weights and constraints, and leave the input unchanged. A barycenter of copies of one series is that series, scaling all weights changes nothing, and the reported cost matches the returned barycenter.",
  "inputs configurations", "every dataset (variable length too), weights, size, constraint and initialisation",
  "Tests compare a few literals or only shapes.",
  ["tslearn/barycenters/dba.py", "tslearn/barycenters/softdtw.py", "tslearn/barycenters/euclidean.py"],
  [("assignment and averaging", "tslearn/barycenters/dba.py"), ("gradient of the soft objective", "tslearn/barycenters/softdtw.py")])
p("P22", "K-means and kernel k-means report consistent clusterings",
  "After fitting, labels are the nearest center (or kernel centroid) of each series, every label is a valid cluster, re-predicting the training set returns the stored labels, and the reported inertia is the one of the returned clustering. More restarts never worsen the result, and the objective does not rise between iterations.",
  "inputs configurations histories", "every dataset, metric, initialisation, seed and number of clusters",
  "Tests check shapes and a few seeds on one random dataset.",
  ["tslearn/clustering/kmeans.py", "tslearn/clustering/utils.py"], [("assignment step", "tslearn/clustering/kmeans.py"), ("restart selection", "tslearn/clustering/kmeans.py")])
p("P23", "Shape-based distance and k-shape are consistent",
  "The normalised cross-correlation of two series is the one of its definition at every lag, the shape-based distance is one minus its maximum, and it lies in [0, 2] and is zero between a series and its scaled copy. After k-shape fitting, labels are nearest centroids, training predictions repeat the labels, and predictions on new series depend only on those series.",
  "inputs configurations", "every dataset, batch of new series and seed",
  "Tests use one random dataset; predictions on batches of other sizes are not related to single-series predictions.",
  ["tslearn/clustering/kshape.py", M+"cycc.py"], [("normalised cross-correlation", M+"cycc.py"), ("prediction", "tslearn/clustering/kshape.py")])
p("P24", "DBSCAN and silhouette follow their definitions on the chosen metric",
  "Density clustering labels exactly the core points, their connected groups, reachable border points and noise given by the definition on the chosen elastic distance; the silhouette score equals its definition on that distance. Both accept variable lengths, precomputed distances and metric parameters, and do not depend on the number of jobs.",
  "inputs configurations", "every dataset, metric, parameters, radius and minimum count",
  "Tests compare one tiny dataset.",
  ["tslearn/clustering/dbscan.py", "tslearn/clustering/utils.py"], [("distance dispatch", "tslearn/clustering/dbscan.py"), ("silhouette distance dispatch", "tslearn/clustering/utils.py")])
p("P25", "Nearest-neighbour search, classification and regression are exact",
  "For any training set, query set, metric and metric parameters, the returned neighbours are the closest ones in order with their true distances, self-queries exclude exactly the query itself, and predictions are the (weighted) vote or mean over those neighbours. An estimator that raised, was refitted or was re-parameterised answers as a freshly built one would.",
  "inputs configurations histories", "every dataset, metric, parameters, neighbour count and sequence of calls",
  "Tests compare a few literals and no histories of set-parameter, failure and refit.",
  ["tslearn/neighbors/neighbors.py"], [("precomputed-distance delegation", "tslearn/neighbors/neighbors.py")])
p("P26", "Kernel machines and networks equal their reference on the same inputs",
  "A time-series support vector machine predicts, scores and exposes what a standard one does on the corresponding alignment-kernel matrix, or on flattened series for standard kernels; multi-layer perceptrons equal the standard ones on flattened series. Support vectors are training series, and probabilities are normalised.",
  "inputs configurations", "every dataset (variable length for the alignment kernel), kernel, bandwidth and class or target set",
  "Tests fit one or two defaults.",
  ["tslearn/svm/svm.py", "tslearn/neural_network/neural_network.py"], [("kernel matrix delegation", "tslearn/svm/svm.py"), ("flattening", "tslearn/neural_network/neural_network.py")])
p("P27", "Early classification never looks ahead",
  "A decision at time t depends only on the first t time stamps: any continuation leaves earlier decisions and their class unchanged, and streaming time stamps one by one gives what batch prediction on each prefix gives. The reported decision time is the first at which waiting is not expected to pay off, the class is that of the classifier for that time, and expected costs follow the documented formula.",
  "inputs histories", "every training set, cost setting, stream and continuation",
  "Tests check a few accuracies and one generator run; non-anticipation ranges over all continuations.",
  ["tslearn/early_classification/early_classification.py"], [("expected cost and stopping rule", "tslearn/early_classification/early_classification.py"), ("streaming generator", "tslearn/early_classification/early_classification.py")])
p("P28", "Shapelet transforms and locations are true best matches",
  "The shapelet transform of a series is, for every learned shapelet, the smallest mean squared distance to its windows, the reported location is a window attaining it, and class predictions follow from the transform through the learned weights. Padded tails are never matched, results do not depend on the batch, and reloading weights or the model reproduces them.",
  "inputs configurations", "every dataset, shapelet sizes, feature count and batch composition",
  "Tests check one or two tiny fits; windows near padding, several sizes and features are not varied.",
  ["tslearn/shapelets/shapelets.py"], [("patching, distance and pooling layers", "tslearn/shapelets/shapelets.py")])
p("P29", "Forecasts follow the fitted model equations",
  "For noise-free data generated by an autoregressive, integrated or seasonal recursion, the fitted model recovers the recursion and forecasts its continuation; in general forecasts are those of the model equations with the exposed coefficients. Forecasts of the training data equal forecasts of the same data passed explicitly, each series is forecast independently of the others, a longer horizon extends a shorter one, and the inputs are unchanged.",
  "inputs configurations", "every order, differencing, seasonality, feature count, dataset and horizon",
  "Tests check a few one-dimensional settings with small differencing orders.",
  ["tslearn/forecasting/_arima.py"], [("coefficient estimation", "tslearn/forecasting/_arima.py"), ("differencing and integration", "tslearn/forecasting/_arima.py")])
p("P30", "Matrix profiles equal brute force for every implementation",
  "Every matrix-profile value is the Euclidean distance from its sub-sequence to its nearest neighbour outside the exclusion zone, with or without per-window normalisation, for any sub-sequence length, and series do not influence each other; the available implementations agree. Several features are refused, not mixed.",
  "inputs configurations", "every dataset, sub-sequence length, scaling option and implementation",
  "Tests compare two small literals.",
  ["tslearn/matrix_profile/matrix_profile.py"], [("sub-sequence distances and exclusion zone", "tslearn/matrix_profile/matrix_profile.py")])
p("P31", "Estimators never corrupt inputs, parameters or themselves",
  "No fit, predict or transform call changes the caller's data or the constructor parameters; predicting changes no fitted state; refitting gives what a fresh estimator gives on the same data; and a call that raises leaves later calls unaffected. Using an estimator before fitting or with a wrong feature count is refused.",
  "inputs histories fault_sequences", "every estimator, dataset and sequence of calls, including failing ones",
  "Generic checks run each estimator once; histories with failures, refits and parameter changes are not explored.",
  ["tslearn/bases/bases.py", "tslearn/neighbors/neighbors.py", "tslearn/clustering/kmeans.py", "tslearn/svm/svm.py"],
  [("estimator conventions", "tslearn/bases/bases.py")])
p("P32", "Results for a series do not depend on its batch",
  "Predicting, transforming or scoring neighbours for a batch of new series gives each series exactly what it gets alone, and permuting the batch permutes the results. Training on a permuted dataset permutes deterministic results accordingly.",
  "inputs configurations", "every fitted estimator, batch composition, order and amount of padding",
  "Tests predict on one batch only.",
  ["tslearn/neighbors/neighbors.py", "tslearn/clustering", "tslearn/piecewise/piecewise.py", "tslearn/preprocessing", "tslearn/svm/svm.py"],
  [("per-series processing", "tslearn/utils/utils.py")])
p("P33", "Compiled kernels stay inside their arrays and never hang or crash",
  "For any input the public interface accepts, no compiled kernel reads or writes outside its arrays, no result exposes uninitialised memory, and every call returns. The same holds for series of length one, unequal lengths, empty overlaps and batches larger than the training set.",
  "inputs configurations", "every public entry point that reaches compiled code, on every shape",
  "Out-of-bounds reads return garbage silently in compiled code; tests run without bounds checks.",
  [M+"_dtw.py", M+"dtw_variants.py", M+"soft_dtw_fast.py", M+"cysax.py", M+"cycc.py", "tslearn/barycenters/dba.py", "tslearn/matrix_profile/matrix_profile.py"],
  [("loop bounds of the compiled kernels", M+"dtw_variants.py")])
p("P34", "Seeded runs are reproducible, whatever the threads",
  "With a fixed seed, every stochastic estimator and generator gives identical results on every run, in every thread and with any number of workers, and does not touch the global random state it was not asked to use. Concurrent calls on one fitted estimator, or on shared data, give what sequential calls give.",
  "schedules inputs configurations", "every seed, number of workers and interleaving of concurrent calls",
  "Tests run once, in one thread.",
  ["tslearn/clustering", "tslearn/generators/generators.py", M+"utils.py", "tslearn/neighbors/neighbors.py", "tslearn/barycenters"],
  [("random state handling", "tslearn/clustering/kmeans.py"), ("threaded cross-distances", M+"utils.py")])
p("P35", "The dataset archive loader returns intact data or says it failed",
  "Loading a dataset returns exactly the train and test series and labels of its files, from the cache when it is there, and downloads only when it is not. A missing, corrupted or partial download, or an unreadable file, gives a warning and an empty result, never a mixture, and leaves other cached datasets alone.",
  "inputs fault_sequences crash_points", "every archive content, cache state and sequence of download failures",
  "Tests need the network or look at bundled files.",
  ["tslearn/datasets/ucr_uea.py", "tslearn/datasets/datasets.py", "tslearn/utils/utils.py"],
  [("cache lookup and download", "tslearn/datasets/ucr_uea.py"), ("zip extraction", "tslearn/datasets/datasets.py"), ("file parsing", "tslearn/utils/utils.py")])
p("P36", "Forecast error measures and generators match their definitions",
  "Mean absolute, squared and scaled errors equal their definitions for every shape and aggregation option, are zero exactly on perfect forecasts, and refuse mismatched shapes. Random-walk and blob generators return finite data of the requested shape whose increments and labels have the promised law.",
  "inputs configurations", "every forecast array, aggregation option and generator setting",
  "Tests check literals.",
  [M+"performance.py", "tslearn/generators/generators.py"], [("error aggregation", M+"performance.py"), ("generators", "tslearn/generators/generators.py")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for r in P:
            assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
    print(len(P))
