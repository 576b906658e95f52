#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that it is easy to review)."""
import json, os
IC = "incremental_calibration/"
EX = "incremental_calibration_examples/incremental_calibration_examples_"
I = IC + "include/aslam/calibration/"
S = IC + "src/"
P = []

def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": state} if state else {}),
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

prop("C01", "A rejected batch leaves no trace in the estimator",
 "When the incremental estimator is given a batch that is not forced and decides to reject it, everything the estimator publishes is as it was before the call: the design variables have their previous values, the batch is no longer part of the problem, and none of the stored calibration results has changed. An accepted batch stays in the problem, keeps its optimised variables, and replaces every stored result.",
 ["histories", "inputs"], "every sequence of batches, every batch content, every outcome of the optimiser and of the accept test",
 "The core library is not even compiled by the existing tests; they exercise no rejection at all, and the guarantee ranges over every history of accepted and rejected batches.",
 [S+"core/IncrementalEstimator.cpp", S+"core/IncrementalOptimizationProblem.cpp"],
 [("backup before optimisation, roll-back on reject", "IncrementalEstimator::addBatch")],
 ["IncrementalEstimator accessors", "design variable values", "number of batches"])

prop("C02", "The accept decision follows the documented rule",
 "A batch is kept exactly when it is forced, or when the optimiser's solution is valid and either the information gain exceeds the configured threshold or the rank of the calibration parameters has risen since the last kept batch. The validity test applies only when enabled and fails when the iteration limit is reached or the cost did not decrease; the reported verdict is the decision actually taken.",
 ["inputs", "histories", "configurations"], "every combination of force flag, validity option, iteration count, costs, gain, threshold and ranks",
 "No existing test compiles or runs the estimator; a test samples single combinations while the rule must hold for all of them.",
 [S+"core/IncrementalEstimator.cpp"], [("accept condition", "IncrementalEstimator::addBatch")],
 ["ReturnValue::batchAccepted"])

prop("C03", "Published results are complete and each comes from its own source",
 "After a kept batch and after a re-optimisation, every result the estimator stores and every field of the summary it returns has been refreshed in that call from the corresponding quantity of the solver; quantities of the scaled system are read after the optimisation and before the unscaled marginal analysis, those of the unscaled system after it, and when scaling is off the scaled ones are emptied. Each accessor hands out the quantity it is named after, in the scaling it is asked for.",
 ["histories", "inputs"], "every call of the two update operations and every accessor, on every path through them",
 "The estimator is outside the compiled test set; a stale or crossed field shows only for particular histories.",
 [S+"core/IncrementalEstimator.cpp"], [("result transfer", "IncrementalEstimator::addBatch / reoptimize"), ("accessors", "IncrementalEstimator::get*")])

prop("C04", "Every solve marginalises exactly the calibration block",
 "Before every optimisation the calibration group is the last group of the problem's ordering and the solver's split between nuisance and calibration columns is the total active dimension minus the dimension of the calibration group, computed after the batch was inserted and the groups were ordered. A problem that lacks the calibration group is refused before anything is optimised.",
 ["histories", "inputs"], "every problem composition and every order in which groups arrive",
 "Depends on the history of inserted batches; the existing tests do not reach the estimator.",
 [S+"core/IncrementalEstimator.cpp", S+"core/IncrementalOptimizationProblem.cpp", S+"core/OptimizationProblem.cpp"],
 [("group ordering", "IncrementalEstimator::orderMarginalizedDesignVariables"), ("column split", "IncrementalEstimator::addBatch / reoptimize"), ("group dimension", "getGroupDim")])

prop("C05", "All views of an optimisation problem agree",
 "At every moment the membership test, the per-group lists, the group ordering, the counts and the index access of an optimisation problem or of an incremental problem describe the same set: adding something makes it visible in all views exactly once, and clearing empties all of them, including saved copies. What is counted is what index access can reach.",
 ["histories"], "every sequence of add, remove, clear and reorder operations",
 "Consistency is an invariant over all operation histories; the existing tests for it are not compiled here and check a handful of sequences.",
 [S+"core/OptimizationProblem.cpp", S+"core/IncrementalOptimizationProblem.cpp"],
 [("parallel containers", "OptimizationProblem::add*, clear"), ("reference counts", "IncrementalOptimizationProblem::add/remove/clear")])

prop("C06", "Removing a batch undoes adding it",
 "Removing a batch from an incremental problem withdraws exactly what adding it contributed: each of its design variables loses one reference, a variable no longer referenced disappears from its group, from the membership records and from the saved copies, an emptied group disappears from the ordering, and the batch itself disappears. Variables still used by other batches stay.",
 ["histories"], "every interleaving of additions and removals of overlapping batches",
 "Needs overlapping batches in every order; the existing test is not compiled and uses a fixed sequence.",
 [S+"core/IncrementalOptimizationProblem.cpp"], [("reference counting", "IncrementalOptimizationProblem::add/remove")])

prop("C07", "Out-of-range access is refused, in-range access is served",
 "Every accessor that takes an index, an iterator, a group identifier or a grid coordinate either returns the element it designates or raises an out-of-bounds error; it never reads outside its container, and the boundary values are treated exactly (the size is refused, the last element is served). The two variants of an accessor refuse the same inputs.",
 ["inputs"], "every index value, including the container size, huge and negative values, on every container state",
 "Quantifies over all index values and container states; existing tests touch two small functions.",
 [S+"core/OptimizationProblem.cpp", S+"core/IncrementalOptimizationProblem.cpp", I+"data-structures/Grid.tpp", I+"algorithms/matrixOperations.tpp", I+"algorithms/permute.tpp", EX+"car/src/algo/OptimizationProblemSpline.cpp"],
 [("bounds checks", "*::get*(size_t), Grid::getCell, permute, computeSumLogDiagR")])

prop("C08", "A refused operation changes nothing",
 "When an operation of the library rejects its arguments by raising an exception, the object it was called on is exactly as it was before the call. Checks come before the first modification on every path.",
 ["inputs", "histories"], "every operation that can reject its arguments, every path on which it does",
 "Every rejecting path of every operation; tests only check that an exception is raised.",
 [S+"core/OptimizationProblem.cpp", S+"core/IncrementalOptimizationProblem.cpp", S+"core/IncrementalEstimator.cpp", I+"statistics/", I+"algorithms/permute.tpp", I+"data-structures/"],
 [("validate, then modify", "every throwing mutator")])

prop("C09", "Saving and restoring covers every design variable",
 "Saving the design variables of a problem records the current value of each design variable in it, and restoring writes each recorded value back to the variable it was recorded from, for every variable in the problem at the time of the save that is still there. A variable that has left the problem is never touched by a later restore.",
 ["histories"], "every problem content and every sequence of save, update, add, remove, clear and restore",
 "Quantifies over problem contents and operation histories; not compiled in the existing tests.",
 [S+"core/OptimizationProblem.cpp", S+"core/IncrementalOptimizationProblem.cpp"],
 [("backup map", "saveDesignVariables / restoreDesignVariables / remove / clear")])

prop("C10", "A design variable can always take back its last change",
 "Every change of a vector design variable, whether an incremental update, a new value or new raw parameters, first keeps the value it replaces; reverting brings exactly that value back and changes nothing else. Raw parameters of the wrong shape are refused, and the value read back is the value written.",
 ["histories", "inputs"], "every sequence of updates, assignments and reverts",
 "The optimiser relies on it for every step of every run; the existing test of it is not compiled.",
 [I+"data-structures/VectorDesignVariable.tpp"], [("previous value", "VectorDesignVariable::updateImplementation / revertUpdateImplementation / setParametersImplementation")])

prop("C11", "Parameters outside their domain are refused everywhere",
 "A parameter that a distribution, grid, histogram, sampler or function declares to be restricted (positive variance, scale, shape or resolution, ordered supports, symmetric covariance, probabilities that sum to one) is refused with an error at every entry through which it can be set, including construction. The boundary value is treated the same way at every entry of the same parameter.",
 ["inputs"], "every value offered at every constructor, setter and sampling function",
 "All parameter values at all entries; the existing tests exercise none of these classes.",
 [I+"statistics/", S+"statistics/", I+"data-structures/Grid.tpp", I+"functions/"],
 [("domain checks", "set* and sample* functions, constructors")])

prop("C12", "Derived quantities always match the parameters they derive from",
 "Whatever an object caches from its parameters (precision, determinant, normaliser, standard deviation, transformation, support area, bin layout, rotation and translation parts of a transform) is recomputed from the current parameters whenever any of them changes, on every path, so that every read reflects the parameters in force.",
 ["histories", "inputs"], "every sequence of construction, assignment and parameter changes",
 "A stale cache shows only after particular sequences of setters; no existing test covers these classes.",
 [I+"statistics/", S+"statistics/", I+"geometry/", I+"data-structures/Grid.tpp"],
 [("recomputation in setters", "NormalDistribution::setVariance/setCovariance, GammaDistribution::set*, UniformDistribution::setSupport, Transformation::set*")])

prop("C13", "Copies are complete",
 "A copy-constructed or copy-assigned object carries over every piece of state of its source, inherited state included, each into its own counterpart, and assigning an object to itself changes nothing.",
 ["inputs", "histories"], "every copyable class and every state of the source",
 "A forgotten or crossed member matters only for objects in particular states; tests copy almost nothing.",
 [I, S, EX+"2dlrf/src", EX+"car/src", EX+"time_delay/src"], [("copy constructors and assignment operators", "all classes")])

prop("C14", "No object is born with indeterminate state",
 "After construction through any of its constructors, every piece of state an object can later read has a determined value; no accessor, computation or option lookup ever uses a value that was never written.",
 ["inputs", "configurations"], "every constructor of every class, every path through it",
 "Reads of indeterminate memory are not observable in a passing test run and depend on the constructor used.",
 [I, S, EX+"car", EX+"time_delay", EX+"egomotion_sensors", EX+"camera"], [("constructor initialisers", "all classes")])

prop("C15", "What is set is what is read",
 "Every value set through a setter is the value the matching accessor returns afterwards, and setting one property changes no other independent property; the read-only and the modifiable variant of an accessor designate the same element, and overloads of one operation that differ only in argument form have the same effect.",
 ["inputs", "histories"], "every setter and accessor pair of every class",
 "Crossed members go unnoticed unless every pair is exercised with distinct values.",
 [I, S, EX+"2dlrf/src", EX+"car/src"], [("accessor pairs", "all classes")])

prop("C16", "Timestamps are totally ordered consistently with their value",
 "All comparison operators of a timestamp, between timestamps and against plain numbers, decide by the represented time alone and agree with one another; sums and differences shift the represented time by exactly the given amount, and the compound and the plain form of an operator agree.",
 ["inputs"], "every pair of timestamps and numbers, every operator overload",
 "Eighteen overloads over all values; no existing test touches them.",
 [S+"base/Timestamp.cpp", I+"base/Timestamp.h"], [("operator overloads", "Timestamp::operator*")])

prop("C17", "Estimators from samples account for each sample exactly once",
 "Adding a sample to a running estimator or histogram updates the sample count and every accumulated sum exactly once with that sample, adding a range is the same as adding its elements one by one, resetting forgets all of it, and the published estimate is flagged valid only if it was computed from the current accumulators.",
 ["histories", "inputs"], "every sequence of add, add-range and reset",
 "Ranges over all sequences; no existing test covers the estimators.",
 [S+"statistics/EstimatorMLNormal1v.cpp", I+"statistics/EstimatorMLNormalMv.tpp", I+"statistics/Histogram1v.tpp", I+"statistics/HistogramMv.tpp"],
 [("accumulators", "EstimatorML::addPoint(s) / reset")])

prop("C18", "A seed determines the random sequence",
 "Giving a randomizer a seed, at construction or later, seeds the generator that every sampling function draws from with exactly that seed; every sampling function draws only from that generator.",
 ["inputs", "histories"], "every seed, every sampling function",
 "Quantifies over seeds and call sequences; not covered by the existing tests.",
 [I+"statistics/Randomizer.tpp"], [("seeding", "Randomizer::setSeed and constructor")])

prop("C19", "Linear-algebra resources are released on every way out",
 "Every sparse matrix or work buffer the truncated-SVD solver adapter obtains is released exactly once on every way out of the function that obtained it, including failures and exceptions, and is never used when obtaining it failed; a failed step is reported to the caller as a failure.",
 ["fault_sequences", "inputs"], "every exit path, including allocation failure and exceptions from the numerical kernels",
 "Faults inside the numerical kernels cannot be provoked by tests, and this component is not compiled by them.",
 ["aslam_tsvd_solver/src/aslam-tsvd-solver.cc"], [("owning pointer / free call", "solveSystem, analyzeMarginal")])

prop("C20", "A residual registers and differentiates what it depends on",
 "Each error term announces to the optimiser exactly the design variables its residual depends on, contributes a Jacobian for each of them exactly once on every evaluation, each of the matching dimensions, and publishes a residual of which every component was computed in that evaluation. The weighted cost it returns is evaluated after the residual of the same evaluation was published.",
 ["inputs"], "every error term class, every path through its evaluation",
 "The error terms are not compiled by the existing tests; a missing contribution only slows or biases convergence.",
 [EX+"2dlrf/src/2dlrf/ErrorTermMotion.cpp", EX+"2dlrf/src/2dlrf/ErrorTermObservation.cpp", EX+"car/src/error-terms", EX+"time_delay/src/error-terms"],
 [("design variable registration", "constructors"), ("evaluation", "evaluateErrorImplementation / evaluateJacobiansImplementation")])

prop("C21", "An error term's weight follows its covariance",
 "The weight an error term applies to its residual is always the inverse of the covariance it reports: it is set at construction, carried by copies, and updated by every operation that changes the covariance.",
 ["histories", "inputs"], "every sequence of construction, copy and covariance change",
 "Shows only when a covariance is changed after construction; not compiled in the existing tests.",
 [EX+"2dlrf/src/2dlrf", EX+"car/src/error-terms", EX+"time_delay/src/error-terms"], [("inverse covariance", "constructors, setCovariance / setVariance")])

prop("C22", "Predictions are judged by the model that is estimated",
 "For each sensor, the residual that a calibrator evaluates when predicting a measurement is the one it adds to the optimisation for that measurement: built from the same expressions, the same design variables, the same measurement field and the same noise parameters, and guarded by the same admission tests. Each measurement that is judged appends one entry to each of its sensor's prediction records: the prediction with its time, the error vector of all its residuals and the sum of their squared errors. Where a residual is the difference of the measured quantity and the modelled one, the recorded prediction is the measurement for which that residual vanishes.",
 ["inputs", "configurations"], "every sensor of every calibrator, every measurement",
 "The calibrators are not compiled by the tests; a mismatch between the two copies of a model is invisible to either alone.",
 [EX+"car/src/algo/CarCalibrator.cpp", EX+"time_delay/src/algo/Calibrator.cpp", EX+"egomotion_sensors/src/algo/Calibrator.cpp"],
 [("paired model construction", "add*ErrorTerms / predict*")])

prop("C23", "Each measurement is used once, in the batch of its window",
 "Every measurement handed to a calibrator is stored in the buffer of its sensor with its own timestamp, every buffer takes part in the batch that closes its window and is emptied before the next window starts, and resetting the predictions empties every prediction record. A batch contains the calibration variables, both trajectory splines and the groups in the order the estimator expects before it is handed over.",
 ["histories", "inputs"], "every interleaving of measurements of all sensors",
 "Ranges over measurement histories; the calibrators are not compiled by the tests.",
 [EX+"car/src/algo/CarCalibrator.cpp", EX+"time_delay/src/algo/Calibrator.cpp", EX+"egomotion_sensors/src/algo/Calibrator.cpp"],
 [("buffers", "add*Measurement, addMeasurements, clearMeasurements, clearPredictions")])

prop("C24", "Every option is read from its own key and reaches its own consumer",
 "Each configuration entry that an option set documents is read once into the option of the same name; no option is left at an arbitrary value when a configuration is given, and each sensor's residuals are weighted with that sensor's own noise option. A calibration variable is estimated exactly when its own activity entry says so; an intrinsic parameter that has no such entry is always estimated.",
 ["configurations"], "every configuration file, every option",
 "A crossed key matters only for configurations in which the two values differ; not covered by existing tests.",
 [EX+"car/src/algo/CarCalibratorOptions.cpp", EX+"time_delay/src/algo/CalibratorOptions.cpp", EX+"egomotion_sensors", EX+"camera/src/camera/CameraCalibrator.cpp", "aslam_tsvd_solver/src/aslam-tsvd-solver.cc", S+"core/IncrementalEstimator.cpp"],
 [("option parsing", "*Options(const PropertyTree&)")])

prop("C25", "The calibration vector reports every variable once",
 "The vector of calibration parameters a calibrator reports and keeps in its history has every component assigned exactly once from its design variable, and the variables it reports are exactly those created on construction and added to each batch, once each and in the group the batch asks for.",
 ["inputs", "histories"], "every component of the parameter vector of every calibrator",
 "Unassigned components hold arbitrary values that a test may not notice; not compiled by the tests.",
 [EX+"car/src/design-variables/OdometryDesignVariables.cpp", EX+"time_delay/src/design-variables/OdometryDesignVariables.cpp", EX+"egomotion_sensors/src/design-variables/DesignVariables.cpp"],
 [("parameter layout", "getParameters / addToBatch")])

prop("C26", "The Python interface mirrors the C++ interface",
 "Every name the Python module exports is bound to the C++ operation or result field of the same meaning, and every result field of an update is available from Python.",
 ["programs"], "every exported name",
 "No existing test loads the Python module; a crossed binding compiles without complaint.",
 ["incremental_calibration_python/src"], [("binding tables", "boost::python class_ definitions")])

prop("C27", "A permutation reorders and never loses elements",
 "Permuting a list either leaves exactly the same elements in the requested order or refuses; a refused permutation leaves the list untouched, and the operation always terminates.",
 ["inputs"], "every list and every vector of indices, including ones that are not permutations",
 "The existing test uses one valid permutation; the guarantee covers all index vectors.",
 [I+"algorithms/permute.tpp"], [("in-place cycle walk", "permute")])

prop("C28", "Densities, distribution functions and their logarithms are consistent",
 "For every distribution the density is the exponential of its log-density, the distribution function is the integral of the density, and mean, median, mode, variance and covariance are those of the density; divergences between two distributions of a family are those of their densities, and the special functions agree with the recurrences that define them.",
 ["inputs"], "every parameter and argument value at which the quantities are defined",
 "The formulas involve all parameters at once; a test pins single numbers, a wrong factor or sign shows only at the others.",
 [I+"statistics", S+"statistics"], [("formulas", "pdf, logpdf, cdf, get*")])

prop("C29", "Jacobians are the derivatives of the residuals",
 "The Jacobian an error term contributes for a design variable equals the derivative of its residual with respect to a minimal perturbation of that variable, at every state at which the residual is defined and smooth, for both signs of every quantity.",
 ["inputs"], "every state of the design variables and every measurement",
 "A continuum of states; harness tests sample a few.",
 [EX+"2dlrf/src/2dlrf", EX+"car/src/error-terms", EX+"time_delay/src/error-terms"], [("hand-written derivatives", "evaluateJacobiansImplementation")])

prop("C30", "Incremental calibration converges to the batch solution",
 "Processing batches one after the other with informative ones kept yields the same calibration, up to the solver's tolerance, as solving for all kept batches at once.",
 ["histories", "inputs"], "every sequence of batches",
 "Numerical statement over all data sets.",
 [S+"core/IncrementalEstimator.cpp"], [("optimiser", "IncrementalEstimator::addBatch / reoptimize")])

prop("C31", "The trajectory of a batch starts at its measurements and is estimated",
 "The position and the orientation spline of a batch are fitted, with their own options, to one sample per pose measurement, at the times of the measurements and in their order, such that at the fitted trajectory and the current calibration every pose measurement (for motion sensors: every motion of the reference sensor, the first starting where the last batch ended) has no residual; successive orientation quaternions never change hemisphere, and the number of segments follows the knots per second asked for but never exceeds the number of measurements. A spline added to a problem puts each of its design variables into the problem once, in order, active and in the group asked for, and is kept; the accessors return exactly the splines given.",
 ["inputs", "histories"], "every sequence of pose or motion measurements, every value of the calibration, every spline",
 "The starting trajectory depends on all measurements and calibration values at once; an estimate from a wrong start may still converge on the sampled data; not compiled by the tests.",
 [EX+"car/src/algo", EX+"time_delay/src/algo", EX+"egomotion_sensors/src/algo"],
 [("initial trajectory", "initSplines"), ("sign of quaternions", "bestQuat"), ("registration of splines", "OptimizationProblemSpline::addSpline")])

prop("C32", "Samples follow the law they are named after",
 "A value returned by sampleUniform, sampleNormal, sampleCategorical, samplePoisson, sampleExponential, sampleGeometric or sampleGamma of a randomizer, of real or integer type, is distributed as the law of that name with the parameters passed, given independent uniform draws of the generator, and lies in its support (integer uniform: every value from the first to the last equally likely; integer normal: the rounded normal). getSample of a distribution follows that distribution with its current parameters, components independent unless correlated by its covariance; getSamples leaves exactly the number of independent samples asked for; setSeed seeds the generator with its argument.",
 ["inputs", "histories"], "every parameter, every stream of draws",
 "A sampled law shows only in the limit; a test with a few draws accepts a wrong weight of the end points, a wrong rejection constant or a transposed factor.",
 [I+"statistics", S+"statistics/NormalDistribution1v.cpp"], [("samplers", "Randomizer::sample*"), ("samples of distributions", "*Distribution::getSample, SampleDistribution::getSamples")])

prop("C33", "Simulated data obey the model that is calibrated from them",
 "For every set of parameters, simulate of the time-delay and egomotion examples produces data of the model the calibrators fit. Trajectory: every pose is the one before displaced by velocity times step in its own frame and rotated right-handed by angular velocity times step (integrateMotionModel, any rotation rate), the body velocities follow the path asked for, in every section of it. Noise-free measurements: a wheel measures its scale times the longitudinal velocity of its contact point (v + omega x r, left at +b, right at -b); a pose sensor the vehicle pose composed with its extrinsic pose, stamped in the middle of the step; an egomotion sensor the motion of its own frame between successive trajectory evaluations, over the whole span; each stamped with the configured delay of its sensor and carrying its own configured covariance (and duration). The noisy measurement has the same stamp and is the same measurement disturbed by its own sample of the zero-mean normal distribution with the covariance of exactly that channel.",
 ["inputs"], "every parameter set, every number of steps",
 "Simulated data are the ground truth calibration results are judged by; a wrong delay, frame or noise channel biases results in a way no test of a few samples shows.",
 [EX+"time_delay/src/simulation/simulationEngine.cpp", EX+"egomotion_sensors/src/simulation/simulationEngine.cpp"], [("simulation", "simulate"), ("motion model", "integrateMotionModel, genSineBodyVel2d, genWheelVelocity")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
