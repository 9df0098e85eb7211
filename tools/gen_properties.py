#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))
COL="datafold/pcfold/timeseries/collection.py"; ACC="datafold/pcfold/timeseries/accessor.py"
MET="datafold/pcfold/timeseries/metric.py"; BASE="datafold/dynfold/base.py"
TRA="datafold/dynfold/transform.py"; DMD="datafold/dynfold/dmd.py"; DYN="datafold/dynfold/dynsystem.py"
EDM="datafold/appfold/edmd.py"; KER="datafold/pcfold/kernels.py"; DIS="datafold/pcfold/distance.py"
EIG="datafold/pcfold/eigsolver.py"; DMA="datafold/dynfold/dmap.py"; OOS="datafold/dynfold/outofsample.py"
PCM="datafold/pcfold/pointcloud.py"; EST="datafold/pcfold/estimators.py"; JSF="datafold/dynfold/jsf.py"
MPC="datafold/appfold/mpc.py"; GEN="datafold/utils/general.py"; SYS="datafold/utils/_systems.py"
COMP="datafold/dynfold/compose.py"

p("C01","A time series collection is always structurally valid",
 "Every time series collection a user obtains - from a constructor, a conversion, or any chain of DataFrame operations on an existing collection - has a two-level row index of (non-negative integer series ID, non-missing time value), no duplicated (ID, time) row, strictly increasing time values within each series, each series stored in one contiguous block, and unique feature names. Data that cannot satisfy this is rejected with an exception, and an operation whose result is no longer a collection returns plain pandas/numpy data instead of a malformed collection.",
 ["inputs","histories"],"all operation sequences (construct, slice, concat, drop, insert, arithmetic, copy, pickle, csv) on all collections with numeric or datetime time values and series of different length",
 "The tests construct a handful of fixed frames and apply one operation at a time; the invariant has to survive any chain of pandas operations on any collection.",
 [COL],[("validation on construction and after pandas operations","TSCDataFrame.__init__/_validate/_constructor"),("insertion","TSCDataFrame.insert_ts")],
 ["every returned object of a public operation"])

p("C02","Conversions into and out of a collection preserve every sample",
 "Building a collection from a tensor, array, list of frames, single frame, snapshot pairs, CSV file or by inserting a series, and reading it back (iterating series, single-series access, initial/final states, pickling, CSV), preserves every value together with its series ID, time value and feature name, neither losing, duplicating nor reordering samples within a series. Copying the row labels of one collection onto other values keeps exactly those labels.",
 ["inputs"],"all shapes, ID sets (non-consecutive, unsorted), time values (integer, float, datetime), unequal series lengths and feature names",
 "Tests use one or two small regular examples per constructor; misattribution only shows up for unequal lengths, gaps or unordered IDs.",
 [COL],[("factory methods","TSCDataFrame.from_*"),("iteration","TSCDataFrame.itertimeseries"),("state selection","TSCDataFrame.initial_states/final_states")])

p("C03","Time metadata of a collection agrees with its samples",
 "For every collection the reported series IDs, number of series, number of time steps (per series or common), sampling interval (per series or common), set of time values, time interval and the derived predicates (constant sampling, equal length, same time values, normalized time, finite, overlapping) equal what is computed directly from the rows, for numeric and datetime time values alike. A per-series result is always attributed to the right series ID.",
 ["inputs","histories"],"all collections: regular/irregular sampling, different sampling per series, single-sample series, datetime, shuffled ID order",
 "Tests probe fixed frames; the corner cases are combinations (datetime x different sampling, unsorted IDs x unequal length).",
 [COL,ACC],[("meta properties","TSCDataFrame.delta_time, n_timesteps, time_values, time_interval, ..."),("checks","TSCAccessor.check_*")])

p("C04","Snapshot pairs, windows and ID re-assignment never mix series or skip time",
 "Snapshot matrices derived from a collection pair every sample exactly with its immediate successor of the same series, once, in both orientations. Time-value windows and re-assigned IDs (train/test indices, constant sampling, fixed length, sequential) partition or select the samples of a series into runs of consecutive time steps with values and times unchanged, never joining samples of different series or across a time gap.",
 ["inputs"],"all collections, window sizes/offsets, index selections",
 "Tests check two-series toy frames with equal length; off-by-one and cross-series mistakes appear for specific lengths, gaps and offsets.",
 [ACC,COL],[("snapshot pairs","TSCAccessor.shift_matrices"),("windows","TSCAccessor.iter_timevalue_window"),("ID assignment","TSCAccessor.assign_ids_*")])

p("C05","Time-axis manipulations act exactly as documented and per series",
 "Shifting or normalizing time, dropping/keeping leading or trailing samples, filling with the last state, augmenting with control input, and finite-difference time derivatives transform each series on its own: all values, IDs and feature names not meant to change are preserved and time values change exactly as documented. Time derivatives of a polynomial whose degree is within the scheme's accuracy are exact at the documented time labels.",
 ["inputs"],"all collections, shifts, schemes (forward/backward/center), derivative and accuracy orders",
 "Tests verify single examples of some of these functions; exactness orders and per-series isolation are universally quantified.",
 [ACC],[("time manipulation","TSCAccessor.shift_time_by_delta, normalize_time, expand, fill..., time_derivative, augment_control_input")])

p("C06","Time series cross-validation splits are leak-free and complete",
 "Every splitter yields train and test indices which are disjoint and refer to existing rows; for the fold splitters every series (or every time block) is tested exactly once over all splits, whole series stay on one side in series-wise splits, and in time-block splits each test set is one contiguous block of time steps of every series. In window splits a test set is one window of exactly the requested number of consecutive samples of one series, windows are disjoint and placed from the end of the series backwards with the requested offset, and the training set consists of all other samples apart from runs shorter than the requested minimum. Splits are reproducible for a fixed random state.",
 ["inputs","configurations"],"all numbers of series, time steps, folds, window and offset settings, shuffling seeds",
 "Tests cover a few divisible cases; leakage shows up for remainders, unequal lengths and particular offsets.",
 [MET],[("splitters","TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime")])

p("C07","Error metrics equal their definition for every series, feature and weight",
 "For every supported metric, mode (per series, per feature, per time step), sample weighting and feature averaging the reported error equals the definition in its documentation evaluated independently for the respective series, feature or time step and is attributed to the right label; the error of identical collections is zero and mismatching collections are rejected. Scores derived from a metric are the negated, averaged metric so that greater is better.",
 ["inputs","configurations"],"all metric/mode/multi-output/weight combinations on all pairs of equally indexed collections",
 "Tests check selected metric/mode pairs against constants.",
 [MET],[("metrics","TSCMetric"),("scoring","TSCScoring")])

p("C08","Transformed data keeps its labels and matches the announced features",
 "For every public transformer the output of a transformation has exactly the announced output feature names and count, in order, and keeps series ID and time value of the samples it was computed from; fit-and-transform in one step equals fit followed by transform on the same data, and array and frame inputs give the same numbers. Transforming one series alone gives the same rows as transforming the whole collection, and data with other features than those seen at fit time is rejected.",
 ["inputs","configurations","histories"],"all transformers and pipelines of column transformers x parameter settings x collections",
 "Tests check a few transformers on fixed data; the contract is over all transformers, parameters and data.",
 [TRA,BASE,COMP],[("feature bookkeeping","TSCTransformerMixin"),("column-wise composition","TSCColumnTransformer")])

p("C09","Inverse transformations restore the original data",
 "For every public transformer that offers an inverse, applying the inverse to transformed data restores the original values, labels and feature names, exactly where the transformation is lossless and in the least-squares sense where it is documented to be approximate. This also holds for data not seen during fit and after the transformer is fitted again on other data.",
 ["inputs","histories"],"all invertible transformers, parameters, collections and refit histories",
 "Tests invert once on the fit data.",
 [TRA,BASE],[("inverse maps","*.inverse_transform")])

p("C10","Transformers compute their mathematical definition per series",
 "Each feature transformation computes its documented definition: delay embedding stacks exactly the past samples of the same series (dropping those without full history; block k is weighted with exp(-kappa*k) if kappa is set), polynomial/lambda/radial-basis/finite-difference/principal-component/scaling features equal an independent evaluation of the formula. Results for one series never depend on samples of another series except through quantities learned during fit.",
 ["inputs","configurations"],"all parameters (delays, lags, frequency, kappa, degree, bias, centers, difference order, accuracy) x collections",
 "Tests compare against small hand-computed arrays for selected parameters.",
 [TRA],[("transformers","TSCTakensEmbedding, TSCPolynomialFeatures, TSCApplyLambdas, TSCRadialBasis, TSCFiniteDifference, TSCPrincipalComponent, TSCFeaturePreprocess, TSCIdentity")])

p("C11","Models never modify the data passed to them",
 "Fitting, updating, transforming, inverse transforming, predicting, reconstructing and scoring leave every array, frame and collection passed in bit-identical in values, row labels, column labels and dtype (names of the index levels aside) - also if the call raises an exception part-way.",
 ["inputs","fault_sequences","configurations"],"all models x calls x data, including calls that fail",
 "No test compares the inputs before and after, and none looks at inputs after a failing call.",
 [EDM,DMD,TRA,DMA,OOS,BASE,JSF],[("copies before modification","EDMD._reconstruct, DMDBase.fit, TSCTakensEmbedding, ...")])

p("C12","Linear system evolution solves the stated recurrence or ODE",
 "Evolving a linear dynamical system from given initial states yields, for every initial state separately, the exact solution at every requested time value: powers of the flow map (x_{k+1} = A x_k + B u_k) or the matrix exponential of the differential system; matrix and spectral representation agree. Controlled systems are evolved on a uniform time grid: the flow map applies u_k to step k, the differential system holds u_k between consecutive time values. Output rows carry the requested time values and the ID of their initial state, and non-uniform, or sub-sampled time values give the same states as a dense evaluation.",
 ["inputs","configurations"],"all system matrices (defective excluded in spectral mode), modes, types, control sequences, initial states, time values",
 "Tests evaluate a few matrices on regular time grids.",
 [DYN],[("solvers","LinearDynamicalSystem.evolve_system")])

p("C13","Dynamic mode decomposition recovers linear dynamics and is least-squares optimal",
 "Fitted to noise-free trajectories of a linear system that excite all states, every unrestricted variant (flow map and generator; matrix and spectral) reproduces the trajectories and the true eigenvalues; on arbitrary data the system matrix minimizes the one-step residual over all snapshot pairs, and rank restriction yields the corresponding projected model. Results do not depend on the order of series, on their IDs or on where the time axis starts, and predictions for several initial conditions equal the individual predictions. The residual filter keeps exactly the components of the unfiltered model whose residual is within the requested limit, and the residual of an exact eigenpair vanishes. fit_predict and reconstruct return for every series the prediction from its initial state at its own time values, and score is the negative (weighted) mean over the features of the min-max scaled root mean squared error of that reconstruction.",
 ["inputs","configurations"],"all stable/unstable diagonalizable systems, data sets, variants and initial conditions",
 "Tests use a few fixed matrices and one data layout.",
 [DMD,DYN],[("system identification","DMDStandard, gDMDFull, DMDBase.predict/reconstruct")])

p("C14","Controlled models recover control dynamics and apply control at the right time",
 "Fitted to noise-free data of a controlled linear (or control-affine) system with sufficient excitation, the controlled model variants recover system and control operators; prediction applies the control value given for time t of series i exactly to the step from t of series i. Control data whose series, time values or columns do not match the states or the fitted model is rejected rather than misaligned.",
 ["inputs","configurations"],"all controlled systems, control signals, numbers of initial conditions, time values",
 "Tests use single systems with one or two regular series.",
 [DMD,DYN,BASE],[("controlled variants","DMDControl, gDMDAffine, DMDBase.predict/reconstruct")])

p("C15","Incremental model updates equal the batch fit on the same data",
 "Models that support incremental fitting give, after any partition of the snapshot pairs of the training data into consecutive chunks, the same system as a (weighted) batch fit on all data seen so far; the prediction after each update corresponds to that system. A new full fit forgets all earlier data.",
 ["inputs","histories"],"all chunkings of all data sets, weightings",
 "Tests feed one chunking and check for convergence only.",
 [DMD,EDM],[("recursive least squares / streaming projections","OnlineDMD, StreamingDMD"),("EDMD.partial_fit","EDMD")])

p("C16","EDMD prediction and reconstruction agree with dictionary, system and time labels",
 "A fitted EDMD model predicts by lifting the initial condition with its dictionary, evolving the lifted linear system and mapping back; prediction, step-wise use of its parts, spectral triplet and reconstruction agree, and on systems that are linear in the dictionary the true trajectory is reproduced. A reconstruction carries for every series exactly the IDs, time values and feature names of that series irrespective of lengths, ID order, start times or sampling of the others, and requesting a subset or re-ordering of output features returns precisely these columns of the full prediction. The score compares exactly these reconstructed samples with the given data.",
 ["inputs","configurations"],"all dictionaries, inverse maps, system modes, collections of unequal series, feature selections",
 "Tests reconstruct equally long, sorted series and select features in the fitted order.",
 [EDM,GEN],[("predict/reconstruct","EDMD.predict, EDMD.reconstruct, EDMD._reconstruct"),("feature projection","projection_matrix_from_feature_names")])

p("C17","Model selection scores equal refitting and scoring by hand",
 "For every parameter candidate and split, the score reported by the EDMD cross-validation equals fitting a fresh copy on exactly the training data and scoring it on exactly the test data; ranking, best parameters and the refitted best model follow from these scores. A candidate that fails is reported as documented and does not affect the others; estimators given as grid values are copied, not fitted in place. Models adapted to windows (also with control input) are reconstructed and scored on the windows.",
 ["inputs","configurations"],"all parameter grids, splitters and data",
 "Tests only check that the search runs and picks reasonable parameters.",
 [EDM,MET],[("EDMDCV","EDMDCV.fit, _fit_and_score"),("scoring","EDMD.score, TSCScoring")])

p("C18","Predictions are returned exactly at the requested times and bad requests fail",
 "A prediction contains for every initial condition exactly the requested time values - preceded by the time of the initial condition if that is not requested, and if none are requested the times of the control input or the initial time and one sampling step -, starts with the initial condition at its own time value (where the model represents it without loss), keeps its ID and features, and does not depend on which other initial conditions or times are requested. A reconstruction has exactly the IDs and time values of the data. Requests the model cannot serve - wrong features, unsorted, duplicated, non-finite or negative times, times before the initial condition, non-finite states, too few, too many or differently sampled samples per initial condition, control input with other names, series, time values or length, unknown output features - and data it cannot be fitted to (non-finite, not uniformly sampled, without time series, control that does not match) raise an error instead of returning data.",
 ["inputs","configurations"],"all models x initial conditions x time value requests, valid and invalid",
 "Tests exercise a few valid and invalid requests.",
 [BASE,DMD,EDM,COL],[("validation of requests","TSCPredictMixin, InitialCondition")])

p("C19","Kernel matrices follow the kernel formula in every representation",
 "Every kernel evaluates its documented formula for each pair of points, with rows indexing the queries and columns the reference points; pairwise matrices are symmetric with the formula's diagonal, evaluating on a pre-computed distance matrix gives the same result, and a sparse (cut-off) evaluation equals the dense one on the stored entries and stores exactly those within the cut-off. Diffusion map kernels are row-stochastic (or conjugate to it by the provided basis change) with the requested density normalization, also out of sample.",
 ["inputs","configurations"],"all kernels, parameters, point clouds, cut-offs, alpha, symmetrization",
 "Tests compare few kernels on single point clouds.",
 [KER,DIS],[("kernels","GaussianKernel, ... , ContinuousNNKernel, ConeKernel, DmapKernelFixed, RoselandKernel")])

p("C20","All distance backends compute the same distances, independent of call history",
 "For every backend, metric and cut-off the distance matrix equals the directly computed distances with entry (i, j) belonging to query i and reference j; sparse results store exactly the pairs within the cut-off including true zeros, plus, in the backends that offer it, the guaranteed minimum number of neighbours with their correct distance. The result depends only on the arguments of the call, never on data passed in earlier calls.",
 ["inputs","histories","configurations"],"all backends, metrics, cut-offs, kmin, data with duplicates, sequences of calls on one object",
 "Tests compare backends once per fixture without duplicates, minimum neighbours with squared metric or reuse.",
 [DIS],[("backends","BruteForceDist, ScipyKdTreeDist, SklearnBalltreeDist, SklearnKNN, compute_distance_matrix")])

p("C21","Embeddings are eigenvectors of the diffusion operator, also out of sample",
 "Diffusion map (and landmark) embeddings are normalized eigenvectors (singular vectors) of the documented kernel operator, ordered by decreasing eigenvalue with leading eigenvalue one and constant first eigenvector in the stochastic case; dense, sparse-without-cut-off, symmetrized and unsymmetrized computations agree. Transforming the training points out-of-sample reproduces the fitted embedding (including time exponent and selected target coordinates), and the approximate inverse maps embeddings back in the least-squares sense.",
 ["inputs","configurations","histories"],"all point clouds/time series, kernels, alpha, time exponents, target coordinate selections, refits",
 "The stable test suite does not run the diffusion map tests here; those that exist use fixed data sets.",
 [DMA,KER,EIG],[("DiffusionMaps","DiffusionMaps.fit/transform/inverse_transform"),("Roseland","Roseland.fit/transform"),("eigen solver","compute_kernel_eigenpairs, compute_kernel_svd")])

p("C22","Out-of-sample interpolators reproduce and extend training values correctly",
 "Geometric harmonics and Laplacian pyramids models evaluate, at any query point, the documented expansion of the training values: each target column is treated independently, predictions at a point do not depend on the other query points, and the stopping criteria bound the training residual as documented. Scores equal the documented error of these predictions (negative root mean squared error for geometric harmonics, coefficient of determination for Laplacian pyramids) including sample weights.",
 ["inputs","configurations"],"all point clouds, target functions (single and multi-output), kernels, scales, stopping parameters",
 "The stable test suite does not run the interpolator tests here; single-column and multi-column agreement is nowhere checked.",
 [OOS,DMA,KER],[("interpolators","GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator")])

p("C23","Refitting, cloning, pickling or sharing an estimator has no side effects",
 "Fitting an already fitted estimator again gives the same model as a fresh estimator on the new data, whatever was fitted or called in between; fitting does not change constructor parameters (steps given to a pipeline are fitted in place, as in scikit-learn) or a kernel shared with another model, so a clone or a second model with the same kernel object behaves as if it were alone. Calls, also failing or interrupted ones, do not change later results of a fitted model; copied, pickled and restored models and repeated runs with the same random state give identical results.",
 ["histories","configurations"],"all estimators x sequences of fit/transform/predict/clone/pickle calls on different data",
 "Every test fits a fresh estimator once.",
 [TRA,DMA,OOS,DMD,EDM,DIS,JSF],[("state reset on fit","*.fit"),("parameter handling","__init__ / get_params")])

p("C24","Point cloud utilities select and estimate as documented",
 "A point cloud object keeps its points, kernel and distance settings under slicing, copying and pickling and uses exactly these settings in its distance matrices (a kernel with distance settings of its own uses those in kernel matrices); sub-sampling returns rows of the cloud with matching indices that keep the requested minimum distance to previously selected points, outlier removal drops exactly the points lacking neighbours, and cut-off and scale estimates satisfy their defining neighbour and decay conditions.",
 ["inputs","configurations"],"all point clouds, distance settings, sub-sample sizes, tolerances",
 "Tests use one random cloud per function.",
 [PCM,EST,DIS],[("PCManifold","PCManifold"),("estimates","estimate_cutoff, estimate_scale"),("sampling","pcm_subsample, pcm_remove_outlier")])

p("C25","Jointly smooth functions solve their joint optimization and extend consistently",
 "Jointly smooth functions are orthonormal, ordered by joint smoothness, and span the leading left singular space of the stacked kernel eigenvectors, for two or more observations alike; the out-of-sample extension equals the averaged Nystroem extension and approximately reproduces the training values.",
 ["inputs","configurations"],"all numbers and partitions of observations, kernels and eigenvector counts",
 "Tests use two or three fixed observations.",
 [JSF,EIG],[("JointlySmoothFunctions","fit/transform")])

p("C26","Model predictive control returns the optimal admissible control",
 "The controller returns, for any fitted controlled model, initial state, reference and cost weights, a control sequence that satisfies all input and predicted-state bounds and attains the minimum of the documented quadratic cost over the horizon; without bounds it equals the closed-form minimizer. The sequence is labelled with the time values at which each control is applied, and costs, bounds and reference refer to the requested features.",
 ["inputs","configurations"],"all systems, horizons, bounds, weights, feature selections",
 "Tests check reachability on two systems and a handful of matrices.",
 [MPC,EDM,GEN],[("KMPC","KMPC.control_sequence_horizon"),("LQR","LQR.control_sequence")])

p("C27","Numerical helper algorithms equal their dense mathematical definition",
 "Diagonal matrix products, symmetric/stochastic normalizations, eigenpair sorting, kernel eigen- and singular value decompositions, and random sub-sampling return what their definition states for dense and sparse matrices alike: decompositions satisfy their defining equations in descending order with left and right vectors paired, and in-place variants change only the designated output.",
 ["inputs","configurations"],"all matrices: dense/sparse, real/complex, symmetric or not, full or partial spectra",
 "Tests use single random matrices.",
 [GEN,EIG],[("helpers","diagmat_dot_mat, mat_dot_diagmat, sort_eigenpairs, random_subsample"),("solvers","compute_kernel_eigenpairs, compute_kernel_svd")])

if __name__ == "__main__":
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,"properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P),"properties")
