BEX = "bounded exhaustive exploration of the real code (every input from a finite lattice chosen to straddle all borders), against an independent reference"

prop("V01", "A vector variable moves, reverts and copies exactly",
     "After any history of updates, sets, reverts, copies and assignments, a vector design variable has the value its own history dictates: an update adds to it, a set replaces it, a revert puts back the value before the "
     "last change, and copies are independent of their origin. Its parameters are its value, its dimension never changes, and parameters of the wrong size are refused without effect.",
     ["histories"], "every history of changes, copies and reverts of two variables of four shapes",
     "The existing test changes one variable a few times and is not built here; reverts after copies or refused sets are not covered.",
     [INC + "data-structures/VectorDesignVariable.h", INC + "data-structures/VectorDesignVariable.tpp"],
     [("saved value for the revert", "VectorDesignVariable::updateImplementation, revertUpdateImplementation")],
     MCT, "The optimiser's base class is a stand-in (stubs/). Every history up to the stated depth with state matching.")
prop("A01", "Permuting applies exactly the permutation, or nothing",
     "Permuting a container by p leaves at position i the element that was at position p[i], whatever the element and index types, and leaves p alone. A vector that is not a permutation of the container's "
     "positions (wrong length, repeated or out of range index) is refused and the container is unchanged.",
     ["inputs"], "every container up to the bound and every vector of indices",
     "The single test permutes one container; cycles and invalid vectors each need their own structure.",
     [INC + "algorithms/permute.h", INC + "algorithms/permute.tpp"], [("cycle-following permutation", "permute")],
     BEX, "All permutations and all index vectors up to the stated sizes, under address and undefined behaviour sanitizers.")
prop("A02", "The information sum covers exactly the columns asked for",
     "The log-sum over a range of columns of an upper triangular factor is the sum of the base-2 logarithms of the absolute diagonal entries of exactly those columns, entries not above the machine tolerance being left "
     "out. A range that is empty or reaches outside the matrix, in rows or columns, is refused.",
     ["inputs"], "every small matrix with diagonal entries straddling the tolerance, every pair of column indices",
     "The single test compares one random matrix; tolerance, sign, range ends and non-square matrices are not exercised.",
     [INC + "algorithms/matrixOperations.h", INC + "algorithms/matrixOperations.tpp"], [("range and tolerance checks", "computeSumLogDiagR")],
     BEX, "All combinations within the stated lattice, three matrix types, under sanitizers.")
prop("G01", "A grid maps every point of its range to one cell and back",
     "Every point between the limits, and no other, has a cell; it lies within that cell's borders (up to rounding), and the centre of every cell is mapped to that cell. Every cell has its own storage, stepping visits each "
     "exactly once, and copies are independent. Indices and points that do not exist are refused, and so are limits or resolutions that make no grid.",
     ["inputs"], "every grid over a lattice of limits and resolutions, every cell, border and floating point neighbour",
     "No test uses grids; rounding at cell borders and at the maximum fails for particular limits only.",
     [INC + "data-structures/Grid.h", INC + "data-structures/Grid.tpp"], [("point to index to storage", "Grid::getIndex, computeLinearIndex, getCell")],
     BEX, "All grids of the stated lattice, one to three dimensions, real and integer, under sanitizers.")
prop("G02", "A histogram counts every sample once and summarises the counts",
     "After any sequence of samples a histogram holds in every cell the number of samples that lie in it; samples out of range or not a number count nowhere. Sum, mean, mode, median, variance and covariance are those of the cell "
     "centres weighted by these counts. Normalising makes the sum one without changing the shape or the original.",
     ["histories"], "every sequence of samples over the cells, borders and outside",
     "No test uses histograms; part of their functions did not even compile when used.",
     [INC + "statistics/Histogram1v.h", INC + "statistics/Histogram1v.tpp", INC + "statistics/HistogramMv.h", INC + "statistics/HistogramMv.tpp"],
     [("cells and moments", "Histogram::addSample, getMean, getVariance, getCovariance, getNormalized")],
     "bounded exhaustive enumeration of sample sequences on the real code, against an independent reference", "Every sequence up to the stated length, one to three dimensions, under sanitizers.")
SH = "bounded model checking of the real code: exhaustive enumeration of histories of parameter changes, copies and assignments on two objects"
prop("S01", "A normal distribution is always the one of its current parameters",
     "After any history of changing mean, variance or covariance, of copying and assigning, every figure a normal distribution reports (mean, mode, precision, determinant, normaliser, density, log density, distance, cumulative "
     "density, divergence) and its samples' spread are those of the mean and covariance set last. A covariance that is not symmetric positive definite is refused and changes nothing.",
     ["histories"], "every history of setting means, valid and invalid (co)variances, copying, assigning, two objects",
     "No test uses distributions; derived quantities cached by one setter and not another show only after particular sequences.",
     [INC + "statistics/NormalDistribution1v.h", IC + "src/statistics/NormalDistribution1v.cpp", INC + "statistics/NormalDistributionMv.tpp"],
     [("quantities derived in the setters", "setMean, setVariance, setCovariance")],
     SH, "Every history up to the stated depth, one to three dimensions, static and dynamic; figures compared with extended precision references at several points.")
prop("S02", "A uniform distribution is always the one of its current limits",
     "After any history of changing limits, copying and assigning, a uniform distribution over real numbers, integers or boxes reports the limits set last and the mean, median, variance, density and cumulative density of exactly "
     "that support, which is closed; its samples lie in it. Limits that are not in increasing order, or not numbers, are refused and change nothing.",
     ["histories"], "every history of setting one or both limits (all pairs of a lattice), copying, assigning, two objects",
     "No test uses distributions; one-sided changes and integer supports have their own formulas.",
     [INC + "statistics/UniformDistribution1v.h", INC + "statistics/UniformDistribution1v.tpp", INC + "statistics/UniformDistributionMv.tpp"],
     [("limits and density kept in step", "UniformDistribution::setSupport, pdf, cdf")],
     SH, "Every history up to the stated depth, real and integer, one to three dimensions.")
prop("S03", "Gamma and chi-square distributions follow their current parameters",
     "After any history of changing parameters, copying and assigning, mean, variance, mode, normaliser, density, cumulative density, quantiles and divergence are those of the shape and inverse scale (or degrees of freedom) set last. "
     "Values below zero have no probability. Parameters that are not positive numbers are refused and change nothing.",
     ["histories"], "every history of setting parameters (also invalid), copying, assigning, two objects",
     "No test uses distributions; the normaliser is cached and depends on both parameters.",
     [INC + "statistics/GammaDistribution.tpp", INC + "statistics/GammaDistribution.h", IC + "src/statistics/ChiSquareDistribution.cpp"],
     [("cached normaliser", "GammaDistribution::computeNormalizer")],
     SH, "Every history up to the stated depth for real and integer shapes and chi-square; figures compared with independent series and continued fractions.")
prop("M01", "The maximum likelihood estimate is that of the points given",
     "After any history of adding points singly, in groups or with weights, resetting and copying, the estimator's distribution has the mean and covariance that maximise the likelihood of the points it was given, and it counts them. "
     "It is valid exactly when such a distribution exists: not without points, and not when they have no spread in some direction.",
     ["histories"], "every history of adding points, resetting and copying, two estimators, one to three dimensions",
     "No test uses the estimators; the multivariate one did not even compile when used.",
     [INC + "statistics/EstimatorML.h", INC + "statistics/EstimatorMLNormal1v.h", IC + "src/statistics/EstimatorMLNormal1v.cpp", INC + "statistics/EstimatorMLNormalMv.tpp"],
     [("running estimate", "EstimatorML<NormalDistribution>::addPoint, addPoints")],
     SH, "Every history up to the stated depth. Where rounding decides whether a degenerate spread is noticed (not exactly zero variance), validity is left open.")
prop("F01", "Special functions have the values their names promise",
     "Log factorial, (multivariate) log gamma, digamma and the lower and upper incomplete gamma functions return the mathematical value to nine digits, whichever way (constructor, setter, copy, assignment) their parameters were set. "
     "Arguments outside the domain are refused.",
     ["inputs"], "every integer argument up to a bound and lattices of real arguments and parameters",
     "No test uses these functions; tables, series and continued fractions switch at particular arguments.",
     [INC + "functions/LogGammaFunction.h", INC + "functions/LogGammaFunction.tpp", IC + "src/functions/LogFactorialFunction.cpp", IC + "src/functions/IncompleteGammaPFunction.cpp"],
     [("tables and series", "getValue")],
     BEX, "Every argument of the stated lattices, against references computed independently in extended precision.")
prop("R01", "Samples have the distribution asked for, for every generator output",
     "Every sampler (uniform, normal, categorical, Poisson, exponential, geometric, gamma, over reals or integers, called directly or through a distribution) turns uniform generator outputs into samples of exactly the distribution its "
     "parameters name, and no output of the generator, its ends included, yields an infinite or impossible sample. Parameters outside their domain are refused. The samples after setting a seed depend on that seed alone.",
     ["inputs", "schedules"], "every sequence of generator outputs over an equidistant lattice, and over the ends of the generator's range",
     "A test can only sample, and would have to allow for statistical error; wrong ends, biased integers and impossible outcomes hide below it.",
     [INC + "statistics/Randomizer.h", INC + "statistics/Randomizer.tpp", INC + "statistics/SampleDistribution.tpp"],
     [("inversion, rejection and polar methods on random()", "Randomizer::sample*")],
     "exhaustive enumeration of the environment (all sequences of outputs of the random generator over a lattice) driving the real code; the exact distribution of outcomes is compared with the mathematical one",
     "random() is replaced by the explorer. Tolerances are those of the lattice (three to five times the deviation of the correct code). Rejection samplers are compared given acceptance in the first round.")

prop("T01", "A transformation, its inverse and its matrix stay in step",
     "After every sequence of setting parameters or a matrix, inverting in place, taking inverses, copying and assigning, a transformation applies exactly the rotation and translation it stands for. "
     "Its matrix, its images of points (transformed in place or not) and its inverse agree, the inverse undoes it, and inverting twice gives the original back. "
     "A new transformation is the identity, and copies are independent.",
     ["histories", "inputs"], "every history of construction, setting, inversion, copying and assignment over two transformations, in two and three dimensions",
     "The matrix and its decomposition are kept side by side and get out of step only after particular sequences of requests.",
     [INC + "geometry/Transformation2d.h", INC + "geometry/Transformation2d.tpp", INC + "geometry/Transformation3d.h", INC + "geometry/Transformation3d.tpp"],
     [("rotation and translation kept beside the matrix", "Transformation<T, M>::setTransformation*, inverse")],
     "explicit-state model checking: exhaustive histories on the real class, each step compared with a reference rigid motion; states matched on the model",
     "Pitch +-90 degrees included. Only matrices that are rigid motions are set.")

prop("B01", "Times compare, add and convert exactly, before the epoch too",
     "Time stamps compare, add and subtract as the numbers of seconds they hold, and their conversion to seconds and nanoseconds has between 0 and 999999999 nanoseconds and denotes the same instant, before the epoch too. "
     "Dates are those of the local calendar, and the present is what the system clock says.",
     ["inputs"], "every pair of a set of times around and away from the epoch, whole seconds, leap days and ends of years, in two time zones, with the clock under control",
     "Which times are converted wrongly depends on sign and fraction, and a test against the real clock cannot know the answer.",
     [INC + "base/Timestamp.h", "incremental_calibration/src/base/Timestamp.cpp"],
     [("conversion to timespec, date and clock", "Timestamp")],
     "exhaustive enumeration of inputs and of the environment's answers (clock and time zone) against an independent calendar",
     "The written form of a date is that of the current code (date and time, separated by blanks or dashes).")

prop("X01", "An exception says what went wrong, where, and survives copying",
     "Every exception of the library says, when caught as a standard exception, the message, offending argument and bound it was given, and the file, line and function when these were given and not otherwise. "
     "Copying, assigning and throwing again keep what it says.",
     ["inputs"], "every kind of exception, every subset of message, file, line and function, every way to copy and throw it",
     "Error paths are what tests exercise least; lost arguments show only in the field.",
     [INC + "exceptions/Exception.h", INC + "exceptions/OutOfBoundException.h", INC + "exceptions/BadArgumentException.h", "incremental_calibration/src/exceptions/Exception.cpp"],
     [("composition of the message", "Exception::what, constructors of the derived exceptions")],
     "exhaustive enumeration of kinds, arguments and ways of passing them on the real classes",
     "The message is searched for its parts; its layout is free.")

LRF = "incremental_calibration_examples/incremental_calibration_examples_2dlrf/"
EXA = "incremental_calibration_examples/incremental_calibration_examples_"
prop("O01", "Simulated paths have the steps asked for; landmarks come from first sight",
     "The simulated path has exactly the number of inputs asked for, for every time step; it starts at rest, never moves sideways, and its turn rates integrate to the heading of the sine wave, its speeds being those along it. "
     "Every landmark is first placed where the first pose that sees it (positive range) puts it under the assumed calibration, and at the origin if none does.",
     ["inputs"], "every number of steps up to a bound x time steps x amplitudes x frequencies; every pattern of seen, unseen and invalid ranges",
     "Accumulated rounding gives one input too many or too few for particular numbers of steps only.",
     [LRF + "src/2dlrf/utils.cpp"], [("path generation and first-sight initialisation", "genSineWavePath, initLandmarks")],
     "exhaustive enumeration of inputs on the real functions against integration of the path and complex arithmetic",
     "Precondition of initLandmarks: as many rows of measurements as poses, all equally long.")
prop("Q01", "Successive orientations never jump to the far quaternion",
     "Of the two quaternions of an orientation the one nearer to the previous quaternion is chosen, exactly that orientation is returned, and a quaternion that is already the nearer one is not touched. "
     "This holds along any sequence, in all three calibration programs.",
     ["inputs", "histories"], "every pair over a lattice of directions and every sequence of up to four orientations, for the car, egomotion and time-delay copies",
     "No test covers it; a wrong choice only shows as a spline that swings the long way round.",
     [EXA + x + "/src/algo/bestQuat.cpp" for x in ("car", "egomotion_sensors", "time_delay")], [("sign choice", "bestQuat")],
     "exhaustive enumeration of pairs and sequences on the real functions", "Exactly orthogonal quaternions may come with either sign.")

TERMS = [EXA + "2dlrf/src/2dlrf/ErrorTermMotion.cpp", EXA + "2dlrf/src/2dlrf/ErrorTermObservation.cpp"] + [EXA + p + "/src/error-terms/ErrorTerm%s.cpp" % t for p, t in
         (("car", "Pose"), ("car", "Wheel"), ("car", "Steering"), ("car", "Velocities"), ("time_delay", "Pose"), ("time_delay", "Wheel"))]
prop("J01", "Error terms: measured minus predicted, weighted as set, exact derivatives",
     "Every error term of the calibration programs evaluates to the measurement last set minus what its design variables predict at present (angles brought into a half turn either way), and its cost weighs that error with the inverse of the "
     "covariance last set. Its Jacobians are the derivatives of that error by exactly the active design variables, forwards, backwards and at standstill. Evaluating changes nothing, and copies and assigned terms are independent of their origin.",
     ["histories", "inputs"], "every history of setting measurement, covariance, options and variables, activating, copying, assigning and evaluating two terms, up to the depth; every combination of a lattice of values",
     "None of these terms is built or tested here; a wrong sign, weight or derivative only makes estimates worse, at particular headings, speeds or after particular setters.",
     TERMS, [("error, weight and Jacobians kept apart", "ErrorTerm*::evaluateErrorImplementation, evaluateJacobiansImplementation, setCovariance")],
     "explicit-state model checking: exhaustive histories and value lattices on the real classes; each state compared with an independent prediction model and with extrapolated central differences",
     "The expression library, kinematics and back end, which are not part of the repository, are replaced by small stand-ins in stubs/ (trusted). No derivative is promised where a steered wheel has no forward velocity, or for a velocity without direction; pitch +-90 degrees is left out.")

prop("K01", "Calibrators: the window, the batch made from it, the predictions, the histories",
     "A calibrator hands the measurements of a window to the estimator exactly when the window is over, or when asked; the batch holds the curves through the window's poses, the calibration variables in order, and exactly one error term for every "
     "measurement that can be used, with the error, weight and variables its measurement model says. Predictions are what that model predicts, and no measurement that arrived is lost, used twice, or used at an instant outside the curves. "
     "The histories hold calibration and information gain after every batch, kept or rejected.",
     ["histories", "inputs"], "every history of measurements, processing, clearing and predicting up to the depth, every batch kept or rejected; time delays x bounds x numbers of poses x what is estimated",
     "No calibrator is built here; a shifted window, a measurement of the wrong sensor or time, or a wrong weight only degrades estimates, for particular timings.",
     [EXA + "time_delay/src/algo/Calibrator.cpp", EXA + "car/src/algo/CarCalibrator.cpp", EXA + "egomotion_sensors/src/algo/Calibrator.cpp"],
     [("windows, batches and predictions", "Calibrator::addMeasurements, addErrorTerms, predict, clearMeasurements"), ("what is estimated and reported", "DesignVariables::getParameters, addToBatch")],
     "explicit-state model checking: exhaustive histories on the real calibrators with the estimator's optimiser and factorisation as a scripted environment; each batch compared with a model written from the measurement models",
     "Splines, expressions, kinematics and back end are stand-ins in stubs/ (trusted): curves go through the given poses and are straight in between. Measurements arrive in order. A first batch without any error term is refused by the optimiser.")

prop("K02", "Camera calibrator and validator: images, batches, reprojection errors, the file",
     "Every image in which the target is found adds one pose and exactly one reprojection error for every corner seen, depending on that pose, that corner and the camera, with the configured variance and M-estimator; a batch goes to the estimator exactly when it "
     "has the configured number of images or when asked, never without images, and no image is taken before the camera has somewhere to start from. The observations kept are those of accepted batches, each with its own transformation. Errors, mean, variance, largest errors, "
     "outliers, parameters and standard deviations are those of the accepted images; what is written is what was estimated and can be read by a validator, which reports the errors of every image it is shown, and draws them.",
     ["histories", "inputs"], "every history of images (all, half or one of the corners seen, no target) and processing up to the depth, every batch kept or rejected, for several batch sizes; a grid of options; every option of the configuration left out",
     "Neither class is built or tested here; a transformation of another image, an image lost or used twice, or a statistic of the wrong corners only shows after several batches.",
     [EXA + "camera/src/camera/CameraCalibrator.cpp", EXA + "camera/src/camera/CameraValidator.cpp"],
     [("batches and observations", "CameraCalibrator::addImage, addObservation, initBatch, processBatch, getTransformation"), ("errors and file", "CameraCalibrator::getErrors, getStatistics, write; CameraValidator::addImage, getLastImage, getNumOutliers")],
     "explicit-state model checking: exhaustive histories on the real classes with the estimator's optimiser and factorisation as a scripted environment; each batch, error and file compared with an independent model",
     "Cameras, target, detector, images and back end are stand-ins in stubs/ (trusted): an image is the scene it shows. Projection precedes distortion in memory, as the code assumes. Statistics are compared where the errors have a clear spread.")

prop("W01", "Simulated measurements are those of the simulated motion",
     "The simulators make one pose per time step before the end, moving with exactly the velocities of the requested path (straight or sine, heading along it), from the start asked for. Every noise-free measurement is what its sensor, placed and delayed as "
     "configured, would measure of that motion: wheel speeds with lever arm and scale factor, sensor poses, relative motions in the sensor's frame, each with the right time, duration and covariance. Noise is added to the noisy copies only, on each sensor with its own variance.",
     ["inputs"], "every combination of a lattice of time steps, durations, waves, calibrations, delays, starts, sensor sets and noise levels; every step and measurement of each",
     "No simulator is built or tested here; a wrong lever arm, frame or time stamp shows only with particular calibrations.",
     [EXA + "time_delay/src/simulation/simulationEngine.cpp", EXA + "egomotion_sensors/src/simulation/simulationEngine.cpp"], [("motion and measurements", "simulate, integrateMotionModel, genSineBodyVel2d, genWheelVelocity"), ("configuration", "SimulationParams, TrajectoryParams")],
     "exhaustive enumeration of a lattice of simulations on the real functions, each compared step by step with an independent integration of the motion",
     "Splines and kinematics are stand-ins (stubs/). Random parts are only required to be consistent with the measurements made from them, and noise to be of its order of magnitude. In a combined trajectory nothing is said about the step between two parts.")
prop("W02", "Geographic positions and local frames are consistent with the ellipsoid",
     "The Cartesian position of a latitude, longitude and altitude is the point of the WGS 84 ellipsoid with that normal, moved along the normal by the altitude. The east-north-up and north-east-down frames there are right-handed, point "
     "where their names say, have their origin at the given point, and the two directions of each conversion are inverse to one another.",
     ["inputs"], "every position of a regular grid including poles and date line, at four altitudes, with five points in both frames, forwards and back",
     "No test converts a position; a swapped axis or sign is invisible at particular places.",
     [EXA + "car/src/geo/geodetic.cpp"], [("conversions", "wgs84ToEcef, enu2ecef, ned2ecef, ecef2enu, ecef2ned")],
     "exhaustive enumeration of a lattice of positions on the real functions, against the geometry of the ellipsoid", "The kinematics library is a stand-in (stubs/). Positions to a millimetre.")
prop("D01", "Car programs: measurements are what the recording says, files what came of it",
     "Both programs hand the calibrator, in the order of the recording, one measurement for every message of an active sensor and nothing else: wheel speeds and steering as sent, the DMI's speed between two of its messages, the Applanix's pose in the local frame of the first usable "
     "one, its velocities in the vehicle's frame, each with its covariance in that same frame and its time corrected by that sensor's own corrector; navigation counts once its accuracy is known. Every window's batch is handed over, the last one too. "
     "The files written hold what was measured, the calibrator's predictions, its estimates, deviations and histories, and its splines; called wrongly, both say how to be called and do nothing.",
     ["inputs", "histories"], "every sequence of kinds of messages up to the depth; lattices of sensors switched on, delays, options and places; drives with every batch kept or rejected",
     "No program is built or tested here, and there are no recordings; a frame, corrector or file mixed up shows only with several sensors in motion.",
     [EXA + "car/src/realworld/calibrator.cpp", EXA + "car/src/realworld/analyzer.cpp", EXA + "car/src/algo/splinesToFile.cpp"],
     [("messages to measurements", "main: loops over the messages of the bag"), ("files", "main: *.txt; writeSplines")],
     "explicit-state model checking: every sequence of messages within the bounds through the real main() functions with the calibrator's calls and files recorded, compared with an independent model of the recording",
     "Bag, messages, time stamp corrector, splines and optimiser are stand-ins (stubs/). The analyzer is judged for recordings within one window, as it is meant for. Angular rate variances are taken from the attitude's accuracy, as the code does.")
prop("D02", "Simulation programs: each measurement is calibrated once; files hold the results",
     "The time-delay and the egomotion simulation programs hand the calibrator every simulated measurement of every configured sensor exactly once, the noisy ones, in the order of time, let it process the last batch too, "
     "and write the true and the estimated values, the predictions and the splines to the files named for them. Called without a configuration they say how to be called and do nothing.",
     ["inputs", "histories"], "a lattice of configurations, starts, noise, delays and window durations, with the batches kept or rejected in every way",
     "No program is built or tested here; leftovers of the last window or interchanged files show only with particular lengths and windows.",
     [EXA + "time_delay/src/simulation/simulator.cpp", EXA + "egomotion_sensors/src/simulation/simulator.cpp", EXA + "time_delay/src/algo/splinesToFile.cpp", EXA + "egomotion_sensors/src/algo/splinesToFile.cpp"],
     [("measurements in order", "main: merging and adding measurements"), ("files", "main: *.txt; writeSplines")],
     "explicit-state model checking: every configuration and answer of the optimiser within the bounds through the real main() functions with calls and files recorded, compared with an independent model",
     "Splines, kinematics and optimiser are stand-ins (stubs/). The simulated data itself is W01's matter.")
prop("D03", "Camera programs: every image is used once, and the files hold what came of it",
     "The calibration program starts the camera from the recording, then hands every image of the topic, and no other message, to the calibrator once, in order, with its own time stamp, lets it process the last batch too, and writes its estimate to the file "
     "named after the recording. The validation program reads that file, shows every image to the validator, and writes the statistics, errors and outliers it reports. Images are saved under their own number and only if asked for; called wrongly both say how to be called and do nothing.",
     ["inputs", "histories"], "every sequence of images (all, some or no corners, other topics) up to the depth, batch sizes, answers of the optimiser, options; calibration followed by validation",
     "No program is built or tested here, and there are no recordings; an image lost at a batch's end or saved under another's number shows only in particular sequences.",
     [EXA + "camera/src/camera/calibrateCamera.cpp", EXA + "camera/src/camera/validateCamera.cpp"],
     [("images to batches", "main: loops over the messages of the bag"), ("files", "main: calibration, statistics, images")],
     "explicit-state model checking: every sequence of messages within the bounds through the real main() functions with the images, calls and files recorded, compared with an independent model",
     "Bag, images, windows, camera, target and optimiser are stand-ins (stubs/). Saved images are judged when visualization is on.")
prop("D04", "Laser programs: each motion and sight is estimated once; files tell the results",
     "The three programs simulate the vehicle along the sine path asked for, measure every motion and, after every motion, every landmark, with noise of the size asked for, and start from the odometry so measured. The problem estimated has one state per step, one motion per "
     "pair of successive states (of a batch), and one observation per landmark and such state, each on the right variables with the right covariance. Batches are kept or dropped as the estimator decides, all leftover steps included, and what is told and written is what was simulated and estimated, for the steps kept, and the same moved to where the landmarks are.",
     ["inputs", "histories"], "a lattice of lengths, time steps, paths, landmarks, calibrations, places, noise and batch sizes, with every sequence of batches kept and rejected",
     "No program is built or tested here; a step observed from the wrong state or a batch counted twice shows only in the estimate.",
     [EXA + "2dlrf/src/2dlrf/simulate-offline.cpp", EXA + "2dlrf/src/2dlrf/simulate-online.cpp", EXA + "2dlrf/src/2dlrf/simulate-online-new.cpp", EXA + "2dlrf/src/2dlrf/ErrorTermMotion.cpp"],
     [("simulation and problem", "main: simulate; create variables and error terms"), ("batches", "main: run over the dataset; decision round"), ("files", "main: *.txt")],
     "explicit-state model checking: every configuration of a lattice and every sequence of answers of the optimiser through the real main() functions, the problem inspected at each optimisation and the files compared with an independent model",
     "Optimiser, linear solvers and the alignment routine are stand-ins (stubs/). Noise is judged by its size. The headings in x_est_trans.txt are not judged. The older online program does not restore variables when it rejects a batch.")
prop("P01", "Python sees and does exactly what C++ does, and no object goes away in use",
     "Every request made through the Python module has the effect, the answer and the refusal of the same request in C++: batches added and removed, estimation, every figure, option and returned value under its own name, readable and, where offered, writable without touching another. "
     "Every object reachable from Python stays alive and usable, whichever handles are dropped in whatever order and whatever is removed from the container it came from, and nothing stays alive that cannot be reached.",
     ["histories", "inputs"], "every sequence of requests to an estimator up to the depth, with the environment's answers; every sequence of container operations with handles dropped at any point; every field of every structure",
     "The module is not built here; a getter bound to another figure or a dangling reference shows only with figures that differ or in a particular order of removal.",
     ["incremental_calibration_python/src/IncrementalEstimator.cpp", "incremental_calibration_python/src/OptimizationProblem.cpp", "incremental_calibration_python/src/LinearSolver.cpp"],
     [("bindings", "exportIncrementalEstimator, exportOptimizationProblem, exportLinearSolver")],
     "explicit-state model checking: the module in an embedded interpreter, every history within the bounds carried out on Python objects and on C++ twins, all observations compared; lifetimes against a reachability model",
     "numpy_eigen and aslam_backend's Python module are stand-ins (stubs/, harness): matrices are handed over by value. The bindings of the vision module, which the build leaves out, are not covered.")
prop("N01", "Frames are kept only when enough tracks moved far enough, numbered in order",
     "The visual data association compares each completed frame with its reference frame, camera by camera, keeps it exactly when there are more tracks than the configured threshold (none unless configured) and their median displacement exceeds the configured one (likewise), "
     "numbers the frames kept consecutively from zero and then matches every pair of their cameras once. With too few tracks the new frame replaces the reference without being kept; otherwise the reference stays, or becomes the frame kept. "
     "Kept frames stay until a reset, which forgets them and the reference; nothing else is held on to.",
     ["inputs", "histories"], "every sequence of images up to the depth, one to three cameras, thresholds configured or not, medians below, at and above the threshold",
     "The module is not built here and has no test; which frame is the reference, and the numbers it gives, show only over several images.",
     ["incremental_calibration_vision/src/vision/VisionDataAssociation.cpp", "incremental_calibration_vision/include/aslam/calibration/vision/VisionDataAssociation.hpp"],
     [("keyframes", "VisionDataAssociation::addImage, computeDisparity, doOfovMatching, reset")],
     "explicit-state model checking: every history of images within the bounds on the real class, with a frame pipeline, tracker and matcher whose answers the explorer chooses, against a model of the reference and the kept frames",
     "The frame pipeline, tracking and matching belong to another library and are stand-ins (stubs/vision). What becomes of the matches is unfinished in the code (addToProblem is empty) and not claimed.")
prop("Y01", "What an object prints is what it holds",
     "Whatever was done to it before, an object written to a stream shows every quantity it holds at that moment, under that quantity's name, completely and in the order of its own: distributions and their estimators, transformations, times, functions, generators, grids and histograms, "
     "vector variables, and the calibration variables of the vehicle and sensor calibrators. Printing changes neither the object nor the stream.",
     ["histories", "inputs"], "every history of three changes to each kind of object over a lattice of values, printed after each and read back; every sequence of changes to two calibration variables",
     "No test prints anything; a name before the wrong parameter shows only when the parameters differ, and a stale quantity only after a change.",
     ["incremental_calibration/src/base/Serializable.cpp", EXA + "car/src/design-variables/OdometryDesignVariables.cpp", EXA + "egomotion_sensors/src/design-variables/DesignVariables.cpp"],
     [("printing", "write(std::ostream&) of every Serializable; operator <<"), ("parameter vectors", "getParameters() of the calibration variables")],
     "exhaustive enumeration of the histories of changes within the bounds on the real classes, what is printed being parsed and compared with what was set",
     "Spaces, order of lines and number of digits are free. Writing to file streams, which most classes leave empty, and reading are not claimed. Scalars and rotations are stand-ins (stubs/).")
