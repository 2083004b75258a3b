"""Text of the properties."""
META = [
 dict(id="C01", title="The histogram filter computes the exact Bayes posterior",
  statement="After any history of system, measurement and combined updates, with any mix of models with and without inputs or sensor parameters, the histogram filter's posterior equals the exact Bayes posterior: transition-sum prediction, likelihood-weighted correction, normalised. Tables changed between updates count as they stand at the update; writing to a density given earlier has no effect on the posterior, and what is written through PostGet is what the next update starts from. The densities given at construction and reset are never modified, and an update in which every state has zero probability is reported as failure instead of success.",
  over=["inputs", "histories", "configurations"],
  qtext="all priors, transition tables, likelihood tables (any number of states, inputs, measurements, sensor parameters; integer or vector measurements) and all sequences of the eight update calls and resets",
  why="The complete-filter test runs one 20-state model for a fixed series and checks one summary; no test varies models, inputs, sensor parameters, zero likelihoods or the order of calls.",
  files=["filter/histogramfilter.cpp", "filter/filter.cpp", "model/systemmodel.cpp", "model/measurementmodel.cpp", "pdf/discreteconditionalpdf.cpp", "pdf/discretepdf.cpp"],
  state=[("_post", "posterior probabilities", "filter/filter.h"), ("_old_prob/_new_prob", "scratch of one update", "filter/histogramfilter.h")],
  mech=[("SysUpdate/MeasUpdate", "filter/histogramfilter.cpp"), ("NormalizeProbs", "pdf/discretepdf.cpp"), ("Update overloads", "filter/filter.cpp")],
  observe=["PostGet()->ProbabilitiesGet()", "return value of Update"]),
 dict(id="C02", title="A discrete distribution stays normalised and holds what was set",
  statement="After any history of setting one or all probabilities of any number of discrete distributions and their copies, each distribution's probabilities are non-negative, sum to one and are what was asked for: a whole assignment is kept up to normalisation, a single assignment holds exactly the given value while the others keep their ratios (or share the rest evenly when they had no mass). Per-state and list queries agree, the reported most probable state has the highest probability, and changing one object never changes another.",
  over=["inputs", "histories", "configurations"],
  qtext="all numbers of states from one up, all probability and weight values including 0 and 1, all interleavings of setters over several objects and copies",
  why="The pdf test sets a few probabilities of one small distribution; it never reaches one-state distributions, probabilities next to one, or long alternations of the setters.",
  files=["pdf/discretepdf.cpp", "pdf/discretepdf.h"],
  state=[("_Values_p", "the probabilities", "pdf/discretepdf.h"), ("_CumPDF", "cumulative sums for sampling", "pdf/discretepdf.h")],
  mech=[("ProbabilitySet", "pdf/discretepdf.cpp"), ("ProbabilitiesSet/NormalizeProbs", "pdf/discretepdf.cpp"), ("CumPDFUpdate", "pdf/discretepdf.cpp")],
  observe=["ProbabilitiesGet", "ProbabilityGet", "MostProbableStateGet", "NumStatesGet"]),
 dict(id="C03", title="Sampling a discrete distribution inverts its cumulative distribution",
  statement="For every discrete distribution, however it was reached, and every sequence of uniform draws in [0,1), a drawn sample is the state whose cumulative interval contains the draw, so it never has zero probability. Lists have the requested length whatever the list held before, the ordered method returns the states of the sorted draws in order, and sampling never changes the distribution.",
  over=["inputs", "histories"],
  qtext="all reachable distributions, all uniform draws including exactly 0, all list lengths and both sampling methods",
  why="The test draws from an unseeded generator and only looks at frequencies or list sizes; a draw of exactly 0, zero-probability states and the draw-to-state map are never pinned down.",
  files=["pdf/discretepdf.cpp", "pdf/pdf.h"],
  state=[("_CumPDF", "cumulative sums kept in step with the probabilities", "pdf/discretepdf.h")],
  mech=[("SampleFrom (single, list, ordered)", "pdf/discretepdf.cpp")],
  observe=["SampleFrom results"]),
 dict(id="C04", title="A sample-based distribution holds its samples, normalised weights and moments",
  statement="After any history of setting, updating, resizing and copying lists of weighted or unweighted samples, a Monte Carlo distribution holds exactly the given values in order, weights proportional to the given ones and summing to one, a consistent cumulative sum, and reports the weighted mean and the weighted covariance about that mean (for unsigned integers about the rounded mean). A list with zero total weight is refused, and copies and clones are independent of their original.",
  over=["inputs", "histories", "configurations"],
  qtext="all lists (any length, dimension and weights, including zero weights) and all interleavings of set, update, resize and copy over several objects",
  why="The pdf test loads one list of equal samples; it never mixes weights, dimensions, replaced lists of other lengths, copies and refused lists in one history.",
  files=["pdf/mcpdf.h", "pdf/mcpdf.cpp", "sample/weightedsample.h", "sample/sample.h"],
  state=[("_listOfSamples", "values and weights", "pdf/mcpdf.h"), ("_SumWeights", "normalisation", "pdf/mcpdf.h"), ("_CumPDF", "cumulative sums", "pdf/mcpdf.h")],
  mech=[("ListOfSamplesSet/ListOfSamplesUpdate", "pdf/mcpdf.h"), ("SumWeightsUpdate/NormalizeWeights/CumPDFUpdate", "pdf/mcpdf.h"), ("ExpectedValueGet/CovarianceGet", "pdf/mcpdf.h")],
  observe=["ListOfSamplesGet/SampleGet", "CumulativePDFGet", "ExpectedValueGet", "CovarianceGet", "return values"]),
 dict(id="C05", title="Sampling a sample-based distribution returns held values by weight",
  statement="For every Monte Carlo distribution, however it was reached, and every sequence of uniform draws in [0,1), each drawn sample is the held value whose cumulative weight interval contains the draw, so a sample of zero weight is never drawn. Lists have the requested length whatever the list held before, the ordered method returns the values of the sorted draws in order, and sampling never changes the distribution.",
  over=["inputs", "histories"],
  qtext="all weighted lists, all uniform draws including exactly 0, all list lengths (also longer than the distribution) and both sampling methods",
  why="The test draws from an unseeded generator; which sample a draw selects, a draw of 0 and zero-weight samples are never pinned down.",
  files=["pdf/mcpdf.h", "pdf/pdf.h"],
  state=[("_CumPDF", "cumulative weights kept in step with the list", "pdf/mcpdf.h")],
  mech=[("SampleFrom (single, list, ordered)", "pdf/mcpdf.h")],
  observe=["SampleFrom results"]),
 dict(id="C06", title="Particle filters propagate and weight particles by Bayes' rule",
  statement="For every history of system, measurement and combined updates, the bootstrap filter's particles are the system model's samples of the previous particles for the given draws and inputs, and their normalised weights are the previous weights times the measurement likelihood. The general particle filter draws from its proposal and corrects a combined update's weights by the ratio of system to proposal density, with and without inputs and sensor parameters. The time step counts system updates, a reset starts from the given samples (any number of them), models and proposals changed between updates count as they stand at the update, particles written through PostGet (any number of them) are what the next update starts from, the densities given are never modified and may be written to without effect, and an update leaving zero total weight is reported as failure.",
  over=["inputs", "histories", "configurations"],
  qtext="all particle sets, linear Gaussian models and tables (vector or integer states, with or without inputs and sensor parameters), proposals, draws and sequences of the eight update calls",
  why="The complete-filter tests run one model with random draws and look at the mean; weights, their order, sensor parameters and proposals other than the system pdf are never checked.",
  files=["filter/particlefilter.cpp", "filter/bootstrapfilter.cpp", "filter/filter.cpp", "model/systemmodel.cpp", "model/measurementmodel.cpp", "pdf/linearanalyticconditionalgaussian.cpp"],
  state=[("_post", "particles and weights", "filter/filter.h"), ("_old_samples/_new_samples", "scratch of one update", "filter/particlefilter.h"), ("_timestep", "system updates made", "filter/filter.h")],
  mech=[("ProposalStepInternal", "filter/particlefilter.cpp"), ("UpdateWeightsInternal", "filter/particlefilter.cpp"), ("BootstrapFilter::UpdateInternal", "filter/bootstrapfilter.cpp")],
  observe=["PostGet()->ListOfSamplesGet", "PostGet()->ExpectedValueGet", "TimeStepGet", "return value of Update"]),
 dict(id="C07", title="Resampling happens exactly when due and keeps only particles with mass",
  statement="Over every history, a particle filter with a fixed period resamples before every system update whose time step is a non-zero multiple of the period and at no other time; one with a threshold resamples after exactly those measurement updates whose effective sample size 1/sum(w^2) is below it. Multinomial resampling replaces the particles by the ones selected by the ordered uniform draws in the cumulative weights, never one of zero weight, keeps their number, and makes all weights equal.",
  over=["inputs", "histories", "configurations"],
  qtext="all periods and thresholds, all particle sets and weights, all draws, all sequences of updates",
  why="No test looks at when resampling happened or at the particles it left; the default policies of the tests make wrong timing invisible in the mean.",
  files=["filter/particlefilter.cpp", "filter/bootstrapfilter.cpp", "pdf/mcpdf.h"],
  state=[("_resamplePeriod/_resampleThreshold/_dynamicResampling", "policy", "filter/particlefilter.h"), ("_timestep", "counter", "filter/filter.h")],
  mech=[("StaticResampleStep/DynamicResampleStep/Resample", "filter/particlefilter.cpp")],
  observe=["PostGet()->ListOfSamplesGet after each update"]),
 dict(id="C08", title="The Kalman filters are exact for linear Gaussian models",
  statement="For every history of system, measurement and combined updates with linear Gaussian models (of any and varying measurement dimension, with or without inputs or sensor parameters, and with matrices or noise changed between updates), the extended and the iterated extended Kalman filter, whatever the number of iterations, report the mean and covariance of the exact Bayes posterior: the latest marginal of the joint Gaussian of all states given all measurements. A reset filter starts afresh from the new prior, and the priors given at construction and reset are never modified.",
  over=["inputs", "histories", "configurations"],
  qtext="all linear Gaussian models (any dimensions, singular priors included), measurements, inputs and sequences of the eight update calls, matrix changes and resets",
  why="The tests run one two-dimensional robot model and compare with recorded numbers or a loose bound; models with several measurement dimensions in one filter, sensor parameters, changed matrices and resets are not exercised.",
  files=["filter/kalmanfilter.cpp", "filter/extendedkalmanfilter.cpp", "filter/iteratedextendedkalmanfilter.cpp", "filter/filter.cpp", "pdf/linearanalyticconditionalgaussian.cpp", "model/linearanalyticsystemmodel_gaussianuncertainty.cpp", "model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp"],
  state=[("_post", "posterior mean and covariance", "filter/filter.h"), ("_mapMeasUpdateVariables", "scratch per measurement dimension", "filter/kalmanfilter.h")],
  mech=[("CalculateSysUpdate/CalculateMeasUpdate", "filter/kalmanfilter.cpp"), ("SysUpdate/MeasUpdate", "filter/extendedkalmanfilter.cpp"), ("PostMuSet/PostSigmaSet", "filter/kalmanfilter.cpp")],
  observe=["PostGet()->ExpectedValueGet", "PostGet()->CovarianceGet", "return value of Update"]),
 dict(id="C09", title="The extended Kalman filters follow their linearised recursion",
  statement="For nonlinear models with state-dependent additive noise, every update of the extended Kalman filter evaluates the model, its Jacobian and its noise covariance at the current mean (with the given input or sensor parameter) and applies the Kalman recursion; the iterated filter relinearises the measurement model at its own estimate, correcting the prediction by the Jacobian times the offset, for the given number of iterations, or until the squared change of the estimate falls below the innovation threshold if one is given. The normalised innovation squared query returns the innovation weighted by the inverse innovation covariance and does not disturb the estimate.",
  over=["inputs", "histories", "configurations"],
  qtext="all nonlinear models with quadratic terms, all iteration counts from one up, all innovation thresholds and all sequences of updates, resets and queries",
  why="The tests run one nonlinear model with fixed noise for a fixed series, with loose tolerances; the iteration count, threshold, relinearisation point and the innovation query are not tested.",
  files=["filter/extendedkalmanfilter.cpp", "filter/iteratedextendedkalmanfilter.cpp", "filter/innovationCheck.cpp", "filter/kalmanfilter.cpp", "model/analyticsystemmodel_gaussianuncertainty.cpp", "model/analyticmeasurementmodel_gaussianuncertainty.cpp"],
  state=[("_post", "posterior mean and covariance", "filter/filter.h"), ("_x_i, _x_i_prev", "iterate", "filter/iteratedextendedkalmanfilter.h")],
  mech=[("SysUpdate/MeasUpdate", "filter/extendedkalmanfilter.cpp"), ("MeasUpdate", "filter/iteratedextendedkalmanfilter.cpp"), ("check", "filter/innovationCheck.cpp"), ("NisGet", "filter/extendedkalmanfilter.cpp")],
  observe=["PostGet()->ExpectedValueGet", "PostGet()->CovarianceGet", "NisGet"]),
 dict(id="C10", title="The Rauch-Tung-Striebel smoother yields the earlier marginals given all data",
  statement="Running the smoother backwards over the filtered posteriors of any history, with the system models and inputs used, yields at every step the mean and covariance of that earlier state given all measurements (exactly for linear Gaussian models; for nonlinear ones the extended recursion linearised at the filtered mean). Smoothing leaves the filter's posterior and the filtered posteriors as they were.",
  over=["inputs", "histories", "configurations"],
  qtext="all histories of updates, all models with and without inputs, all smoothing depths",
  why="The smoother test checks only that the result is near the true path of one simulated run with linear models.",
  files=["smoother/rauchtungstriebel.cpp", "smoother/backwardfilter.cpp", "smoother/backwardfilter.h"],
  state=[("_post", "smoothed posterior", "smoother/backwardfilter.h")],
  mech=[("SysUpdate", "smoother/rauchtungstriebel.cpp"), ("Update", "smoother/backwardfilter.cpp")],
  observe=["PostGet()->ExpectedValueGet", "PostGet()->CovarianceGet"]),
 dict(id="C11", title="A Gaussian reports, evaluates and samples what it was last given",
  statement="After any history of constructing (with parameters, with a dimension or empty), copying, assigning, resizing and setting mean and covariance, every Gaussian holds the last mean and covariance given, its density at any point is the normal density of exactly those parameters, and a sample is the mean plus the Cholesky factor of the covariance times the standard normal draws, also when some variances are zero. Lists have the requested length whatever they held before, sampling methods it does not offer are reported as failure, and no object's calls affect another object.",
  over=["inputs", "histories", "configurations"],
  qtext="all dimensions, means, covariances and points, all interleavings of setters, evaluations, samplings, copies and assignments over several objects",
  why="The density is cached and recomputed lazily; the test evaluates one object in one order. Stale caches after a setter, copy, assignment or resize, and the mapping from draws to samples, are not pinned down by any test.",
  files=["pdf/gaussian.cpp", "pdf/gaussian.h", "wrappers/matrix/matrix_wrapper.cpp"],
  state=[("_Mu, _Sigma", "parameters", "pdf/gaussian.h"), ("_Sigma_changed, _Sigma_inverse, _sqrt_pow", "lazy density cache", "pdf/gaussian.h"), ("_Low_triangle, _samples", "sampling scratch", "pdf/gaussian.h")],
  mech=[("ProbabilityGet", "pdf/gaussian.cpp"), ("SampleFrom", "pdf/gaussian.cpp"), ("cholesky_semidefinite", "wrappers/matrix/matrix_wrapper.cpp"), ("DimensionSet", "pdf/gaussian.cpp")],
  observe=["ExpectedValueGet", "CovarianceGet", "ProbabilityGet", "SampleFrom", "DimensionGet"]),
 dict(id="C12", title="A uniform density is constant on its box, zero elsewhere, and samples inside",
  statement="After any history of constructing (with parameters, with a dimension or empty), copying, assigning and setting centre and width, every uniform density reports the last centre and width given, has density one over the volume on the box (border included) and zero outside, and each sample is the point of the box selected by the uniform draws, one per coordinate. Lists have the requested length whatever they held before, methods it does not offer are reported as failure, and no object's calls affect another object.",
  over=["inputs", "histories", "configurations"],
  qtext="all dimensions, centres, widths, points (inside, outside, on the border) and draws, all interleavings of calls over several objects",
  why="The test looks at one two-dimensional box and a handful of points; boxes set later, borders in other coordinates, copies and sample placement are not covered.",
  files=["pdf/uniform.cpp", "pdf/uniform.h"],
  state=[("_Lower, _Higher", "the box", "pdf/uniform.h"), ("_Height", "density on the box", "pdf/uniform.h")],
  mech=[("UniformSet", "pdf/uniform.cpp"), ("ProbabilityGet", "pdf/uniform.cpp"), ("SampleFrom", "pdf/uniform.cpp")],
  observe=["CenterGet", "WidthGet", "ProbabilityGet", "SampleFrom"]),
 dict(id="C13", title="A mixture stays a convex combination of its own components",
  statement="After any history of adding components (with or without a weight), deleting them, setting one or all weights, changing components through the pointers handed out and copying, a mixture owns exactly the components added and not deleted, with non-negative weights summing to one that are those asked for (a first component gets weight one, a later one zero or the given weight with the others scaled down, deletion and whole assignment renormalise). Its density and expected value (for integer states the most probable state) are the weighted combination of its components', the most probable component has the highest weight, and copies and handed-in pdfs are independent.",
  over=["inputs", "histories", "configurations"],
  qtext="all mixtures of Gaussians, uniforms or discrete pdfs, any number of components including none, all interleavings of the calls over several objects",
  why="The test performs one fixed series of additions and deletions on Gaussian and discrete mixtures; weights of zero and one, longer histories, empty mixtures and copies in between are not reached.",
  files=["pdf/mixture.h", "pdf/mixture.cpp"],
  state=[("_componentPdfs", "owned components", "pdf/mixture.h"), ("_componentWeights", "weights", "pdf/mixture.h"), ("_cumWeights", "cumulative weights for sampling", "pdf/mixture.h")],
  mech=[("AddComponent/DeleteComponent", "pdf/mixture.h"), ("WeightSet/WeightsSet/NormalizeWeights", "pdf/mixture.h"), ("ProbabilityGet", "pdf/mixture.h"), ("ExpectedValueGet", "pdf/mixture.cpp")],
  observe=["WeightsGet/WeightGet", "ComponentsGet/ComponentGet", "ProbabilityGet", "ExpectedValueGet", "MostProbableComponentGet", "return values"]),
 dict(id="C14", title="Sampling a mixture picks a component by weight and samples that component",
  statement="For every mixture, however it was reached, and every sequence of draws, a sample is drawn from the component whose cumulative weight interval contains the uniform draw, using that component's own sampling, so a component of zero weight is never used. Lists have the requested length whatever they held before, the ordered method visits the components in the order of the sorted draws, and sampling changes neither the mixture nor its components.",
  over=["inputs", "histories"],
  qtext="all reachable mixtures of Gaussians, uniforms or discrete pdfs, all draws including exactly 0, all list lengths and both sampling methods",
  why="The test only checks list sizes; which component a draw selects, a draw of 0, zero weights and the ordered method's samples are never looked at.",
  files=["pdf/mixture.h", "pdf/pdf.h", "pdf/gaussian.cpp", "pdf/uniform.cpp", "pdf/discretepdf.cpp"],
  state=[("_cumWeights", "cumulative weights kept in step with the weights", "pdf/mixture.h")],
  mech=[("SampleFrom (single, list, ordered)", "pdf/mixture.h"), ("CumWeightsUpdate", "pdf/mixture.h")],
  observe=["SampleFrom results"]),
 dict(id="C15", title="Matrix and vector types compute exact linear algebra on both back ends",
  statement="For every history of calls on matrices, symmetric matrices, row and column vectors, with either matrix library, each operation has the mathematical meaning of its name on the values given, elements and ranges counted from 1: sums, differences, products (also in place and with scalars, and when the result overwrites an operand), transposes, parts, rows and columns, joins, conversions (a symmetric matrix takes the lower triangle), resizing (what fits is kept), equality (true for equal values, false for different values or sizes), determinants (0 when singular), inverses, Cholesky factors (lower, failure when not positive), singular values (A = U W V' with orthogonal V and non-negative W) and pseudoinverses. No call changes another object.",
  over=["inputs", "histories", "configurations"],
  qtext="all matrix and vector shapes and values, singular and rank-deficient ones included, all interleavings of calls over several objects, both matrix back ends",
  why="The tests use a handful of fixed 2x2 to 4x4 values per call, compare against the same library, and leave resizing with content, aliasing, singular and rank-deficient cases and most symmetric or row vector calls out.",
  files=["wrappers/matrix/matrix_wrapper.cpp", "wrappers/matrix/matrix_wrapper.h", "wrappers/matrix/matrix_BOOST.cpp", "wrappers/matrix/matrix_EIGEN.cpp", "wrappers/matrix/vector_BOOST.cpp", "wrappers/matrix/vector_EIGEN.cpp"],
  state=[("elements", "values of the matrix or vector", "wrappers/matrix/matrix_BOOST.h")],
  mech=[("operators", "wrappers/matrix/matrix_BOOST.cpp"), ("operators", "wrappers/matrix/matrix_EIGEN.cpp"), ("cholesky_semidefinite/SVD/pseudoinverse", "wrappers/matrix/matrix_wrapper.cpp")],
  observe=["elements and sizes of every object after every call", "results of queries"]),
 dict(id="C16", title="A conditional Gaussian has the moments, density and samples of its arguments",
  statement="After any history of setting arguments (singly or all at once), coefficient matrices, noise mean and noise covariance, copying, cloning and assigning, an analytic conditional Gaussian with additive noise (the linear class, or one a user derives) reports for its current arguments the mean (for the linear class the sum of matrix times argument plus the noise mean), the covariance, the derivative to each argument, the Gaussian density of any value with that mean and covariance, and samples that are the mean plus the covariance's lower Cholesky factor times the normal draws (semi-definite noise included). Sampling methods it does not offer return false, asking changes nothing, and copies are independent.",
  over=["inputs", "histories", "configurations"],
  qtext="all dimensions, numbers of arguments, matrices, noise means and (semi-)definite covariances, all normal draws, all interleavings of setters, queries and copies over several densities",
  why="The pdf test builds one fixed 2-argument linear density and compares a few values once; changes after copying, changed matrices and noise, other numbers of arguments, and sample values are not covered.",
  files=["pdf/linearanalyticconditionalgaussian.cpp", "pdf/analyticconditionalgaussian_additivenoise.cpp", "pdf/analyticconditionalgaussian.cpp", "pdf/conditionalgaussian.cpp", "pdf/conditionalpdf.h", "pdf/gaussian.cpp"],
  state=[("_ConditionalArguments", "current arguments", "pdf/conditionalpdf.h"), ("_ratio", "coefficient matrices", "pdf/linearanalyticconditionalgaussian.h"), ("_additiveNoise_Mu/_additiveNoise_Sigma", "noise", "pdf/analyticconditionalgaussian_additivenoise.h")],
  mech=[("ExpectedValueGet/dfGet/CovarianceGet", "pdf/linearanalyticconditionalgaussian.cpp"), ("ProbabilityGet/SampleFrom", "pdf/conditionalgaussian.cpp"), ("ConditionalArgument(s)Set", "pdf/conditionalpdf.h")],
  observe=["ExpectedValueGet", "CovarianceGet", "dfGet", "ProbabilityGet", "SampleFrom", "MatrixGet", "ConditionalArgumentGet", "AdditiveNoise getters"]),
 dict(id="C17", title="System and measurement models are faithful views of their density",
  statement="After any history, a system or measurement model (plain, analytic Gaussian or linear Gaussian) refers to exactly the density it was last given: simulation, probabilities, predictions, covariances and derivatives at given state and input (or sensor parameter) are those of that density with these arguments, whether the density has an input or not and whatever arguments it held before; reported sizes and whether there are inputs or parameters follow the density; the matrices of a linear model read and write those of its density, and models sharing a density see each other's changes.",
  over=["inputs", "histories", "configurations"],
  qtext="all densities with one or two arguments, all states, inputs, parameters and draws, all interleavings of replacing densities, changing them directly or through any model sharing them, copying models and asking",
  why="The model test constructs each model once with one fixed density and reads it back; shared, replaced and changed densities, stale arguments and simulation values are not reached.",
  files=["model/systemmodel.cpp", "model/measurementmodel.cpp", "model/analyticsystemmodel_gaussianuncertainty.cpp", "model/analyticmeasurementmodel_gaussianuncertainty.cpp", "model/linearanalyticsystemmodel_gaussianuncertainty.cpp", "model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp"],
  state=[("_SystemPdf/_MeasurementPdf", "the density referred to", "model/systemmodel.h"), ("_systemWithoutInputs/_systemWithoutSensorParams", "whether it has a second argument", "model/systemmodel.h")],
  mech=[("Simulate/ProbabilityGet", "model/systemmodel.cpp"), ("PredictionGet/CovarianceGet/df_dxGet", "model/analyticsystemmodel_gaussianuncertainty.cpp"), ("ASet/BSet/HSet/JSet", "model/linearanalyticsystemmodel_gaussianuncertainty.cpp")],
  observe=["Simulate", "ProbabilityGet", "PredictionGet", "CovarianceGet", "df_dxGet", "AGet/BGet/HGet/JGet", "StateSizeGet/MeasurementSizeGet", "SystemWithoutInputs/SystemWithoutSensorParams"]),
 dict(id="C18", title="A conditional table returns each entry set and samples the row of its arguments",
  statement="After any history of setting entries, arguments and copying, a discrete conditional density (and every discrete model built on it) returns for every state and combination of conditional arguments exactly the entry last set for it, independently of every other entry, for any number of states and of arguments of any sizes; a sample is the state whose interval of the cumulative normalised row of the current arguments contains the uniform draw, so an entry of zero is never drawn. Copies are independent of their original.",
  over=["inputs", "histories", "configurations"],
  qtext="all table shapes with one to three conditional arguments, all entries including zero and rows that do not sum to one, all draws including exactly 0, all interleavings over several tables, copies and models",
  why="The test fills one small table completely and reads it back; tables with several arguments of different sizes, rewritten entries, copies, unnormalised rows and which draw gives which state are not covered.",
  files=["pdf/discreteconditionalpdf.cpp", "model/discretesystemmodel.cpp", "model/systemmodel.cpp", "model/measurementmodel.cpp"],
  state=[("_probability_p", "the table", "pdf/discreteconditionalpdf.h"), ("_cond_arg_dims_p", "numbers of values of the arguments", "pdf/discreteconditionalpdf.h")],
  mech=[("IndexGet/ProbabilitySet/ProbabilityGet", "pdf/discreteconditionalpdf.cpp"), ("SampleFrom", "pdf/discreteconditionalpdf.cpp")],
  observe=["ProbabilityGet", "SampleFrom", "NumStatesGet", "ConditionalArgumentGet", "model Simulate/ProbabilityGet"]),
 dict(id="C19", title="Mixture particle filters update components and their weights by Bayes' rule",
  statement="For every history of updates, resets and mixture maintenance, each component of a mixture particle filter (bootstrap or with a proposal) is propagated, weighted and resampled on its own draws exactly as a particle filter over its particles, and the component's mixture weight becomes proportional to its old weight times the sum of its particles' updated weights, so that the whole mixture is one importance-weighted particle set. The time step counts system updates; components resample before every system update at a non-zero multiple of the period, or when their own effective sample size is below the threshold; the user's mixture maintenance runs exactly at updates ending on a non-zero multiple of its period and may change the number of components and particles, as may a reset. Densities given are never modified; an update leaving no mass at all is reported as failure.",
  over=["inputs", "histories", "configurations"],
  qtext="all mixtures (any numbers of components and particles), models, proposals, periods, thresholds, draws, maintenance actions and sequences of the update and reset calls",
  why="The complete-filter test runs one mixture bootstrap filter with random draws and looks at an averaged mean; component weights, time step, maintenance, resets and proposals are never checked.",
  files=["filter/mixtureParticleFilter.cpp", "filter/mixtureBootstrapFilter.cpp", "filter/filter.cpp", "pdf/mixture.h", "pdf/mcpdf.h"],
  state=[("_post", "mixture of particle lists", "filter/filter.h"), ("_sumWeights/_newMixtureWeights", "component likelihoods of one update", "filter/mixtureParticleFilter.h"), ("_timestep", "system updates made", "filter/filter.h")],
  mech=[("ProposalStepInternal(One)", "filter/mixtureParticleFilter.cpp"), ("UpdateWeightsInternal(One)", "filter/mixtureParticleFilter.cpp"), ("StaticResampleStep/DynamicResampleStep(One)", "filter/mixtureParticleFilter.cpp"), ("MaintainMixtureStep", "filter/mixtureParticleFilter.cpp")],
  observe=["PostGet components, their samples and weights", "TimeStepGet", "calls of MaintainMixture", "return value of Update"]),
 dict(id="C20", title="A symbolic conditional Gaussian evaluates its function, Jacobian and noise",
  statement="For every symbolic function of states and inputs, and after any history of setting arguments and noise, copying, cloning, assigning and building models of it, a GiNaC conditional Gaussian has the dimension of its function and two arguments (state, input). With noise on the output its mean is the function value at the arguments plus the noise mean and its covariance the noise covariance; with noise on some inputs, mean, Jacobian and covariance (derivative to those inputs times noise covariance times its transpose) are taken at the inputs shifted by the noise mean. The derivative is the Jacobian to the state, the density is Gaussian with this mean and covariance, and samples are mean plus Cholesky factor times normal draws. Models made of it work on their own copy with the state and input they are asked for, and density and models hand out the function and symbols given; copies are independent.",
  over=["inputs", "histories", "configurations"],
  qtext="all polynomial functions of any numbers of outputs, states and inputs, noise on the output or on any inputs, all arguments and draws, all interleavings of calls over several densities, copies and models",
  why="The tests use GiNaC models of one robot in one filter run (where they are built at all); densities with noise on inputs, copies, clones, symbols handed out and the point of linearisation are never looked at.",
  files=["pdf/nonlinearanalyticconditionalgaussian_ginac.cpp", "pdf/nonlinearanalyticconditionalgaussian_ginac.h", "model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp", "model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp", "pdf/analyticconditionalgaussian_additivenoise.cpp", "pdf/conditionalgaussian.cpp"],
  state=[("func_sym, u_sym, x_sym, cond_sym", "function and symbols", "pdf/nonlinearanalyticconditionalgaussian_ginac.h"), ("dfunc_dx, dfunc_dcond", "derivatives", "pdf/nonlinearanalyticconditionalgaussian_ginac.h")],
  mech=[("ExpectedValueGet, CovarianceGet, dfGet", "pdf/nonlinearanalyticconditionalgaussian_ginac.cpp"), ("PredictionGet, CovarianceGet, df_dxGet", "model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp")],
  observe=["ExpectedValueGet, CovarianceGet, dfGet(0)", "ProbabilityGet, SampleFrom", "PredictionGet, CovarianceGet, df_dxGet, Simulate of the models", "FunctionGet, StateGet, InputGet, ConditionalGet"]),
 dict(id="C21", title="Square root iterated EKF equals the iterated EKF and keeps a true root",
  statement="For every sequence of system updates, measurement updates (explicit or implicit measurement models, noise given as covariance or as identity with its root, any iteration count, with or without sensor parameters), combined updates, PriorSet and Reset, the square root iterated extended Kalman filter has exactly the posterior mean and covariance of the iterated extended Kalman filter (in linear Gaussian systems: of exact Bayesian inference), and the square root it hands out times its transpose is that covariance after every step. The prior object given stays untouched.",
  over=["inputs", "histories", "configurations"],
  qtext="all state, input, measurement and sensor dimensions, all positive definite priors, all model matrices, quadratic terms, offsets, noises and iteration counts, all interleavings of system and measurement updates, priors set and resets",
  why="The repository has no test of the square root filter; wrong triangles and stale roots only show for correlated covariances and after priors are set again, in any order of updates.",
  files=["filter/SRiteratedextendedkalmanfilter.cpp", "filter/SRiteratedextendedkalmanfilter.h", "filter/kalmanfilter.cpp", "model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h", "wrappers/matrix/matrix_BOOST.cpp", "wrappers/matrix/matrix_EIGEN.cpp"],
  state=[("JP", "square root of the covariance", "filter/SRiteratedextendedkalmanfilter.h"), ("_post", "Gaussian posterior", "filter/filter.h")],
  mech=[("SysUpdate, MeasUpdate, CalculateMatrix", "filter/SRiteratedextendedkalmanfilter.cpp"), ("cholesky_semidefinite", "wrappers/matrix/matrix_EIGEN.cpp")],
  observe=["PostGet()->ExpectedValueGet(), CovarianceGet()", "SRCovarianceGet times its transpose", "the caller's prior"]),
 dict(id="C22", title="Particle smoother reweights the filtered particles by Bayes' rule backwards",
  statement="For every list of smoothed particles x_k with weights s_k, every list of filtered particles f_j with weights w_j and every system model (with or without input), a backward update keeps exactly the filtered particles and gives them weights proportional to w_j * sum_k s_k p(x_k|f_j,u) / sum_l w_l p(x_k|f_l,u), normalised; smoothed particles that no filtered particle leads to drop out. The numbers of particles of successive steps need not be equal. Reset makes the posterior equal to the density given, and neither that density, the filtered density handed in nor the prior is ever changed.",
  over=["inputs", "histories", "configurations"],
  qtext="all numbers of particles on both sides, all weights including zeros, continuous and discrete states, all system models and inputs, all sequences of backward updates and resets",
  why="The smoother tests run one scenario and compare nothing with the exact weights; indices that run over the wrong list and sums that start from garbage need particle lists of different sizes and repeated steps to show.",
  files=["smoother/particlesmoother.cpp", "smoother/particlesmoother.h", "smoother/backwardfilter.cpp", "smoother/backwardfilter.h", "pdf/mcpdf.h"],
  state=[("_post", "smoothed particles", "smoother/backwardfilter.h"), ("_os, _ns lists", "filtered and smoothed particles", "smoother/particlesmoother.h")],
  mech=[("UpdateInternal, SysUpdate", "smoother/particlesmoother.cpp"), ("Reset", "smoother/backwardfilter.cpp")],
  observe=["particles and weights of PostGet()", "particles and weights of the filtered density, the prior and the density last reset to"]),
 dict(id="C23", title="EKF particle filter: Kalman proposals, importance weights, covariances carried",
  statement="For every history of updates and resets, the particle filter with extended Kalman proposals runs, for every particle, the extended Kalman filter from (particle, its covariance) with the models, input, measurement and sensor parameters of that update, draws the new particle from the resulting Gaussian, multiplies its weight with p(z|x') p(x'|x) / proposal(x') and carries the resulting covariance along; resampling (periodic or when the effective number of particles falls below the threshold) copies particle and covariance together and makes weights equal; a reset starts with the particles given and their sample covariance. As an object, the proposal density has the mean, covariance, density and samples of that Gaussian for any order in which models, covariance and arguments are set.",
  over=["inputs", "histories", "configurations"],
  qtext="all numbers of particles, state and measurement dimensions, linear and nonlinear models with and without inputs and sensor parameters, all periods and thresholds, all draws, all interleavings of updates with changing models, and resets",
  why="The tests build this filter but have its update commented out: not one update is executed. Covariances that lag behind their particle or belong to another one need several steps and resampling to show.",
  files=["filter/EKparticlefilter.cpp", "filter/EKparticlefilter.h", "filter/particlefilter.cpp", "pdf/EKF_proposaldensity.cpp", "pdf/filterproposaldensity.cpp", "pdf/conditionalgaussian.cpp", "filter/extendedkalmanfilter.cpp"],
  state=[("_sampleCov", "covariance of every particle", "filter/EKparticlefilter.h"), ("_post", "weighted particles", "filter/filter.h"), ("_sample_cov, _sysmodel, _measmodel", "state of the proposal", "pdf/filterproposaldensity.h")],
  mech=[("ProposalStepInternal, UpdateWeightsInternal, Resample, Reset", "filter/EKparticlefilter.cpp"), ("FilterStep", "pdf/filterproposaldensity.cpp")],
  observe=["particles, weights and mean of PostGet()", "TimeStepGet", "mean, covariance, density and samples of the proposal density", "the caller's densities"]),
 dict(id="C24", title="Random draws have the law they are named after and are independent",
  statement="In any interleaving of calls, runif() is uniform on [0,1), runif(a,b) uniform on [a,b) for a<b, and rnorm(mu,sigma) normal with mean mu and standard deviation sigma, for all parameters; uniform draws never leave their half-open interval; successive draws, and draws of interleaved generators, are independent, and the stream does not start over.",
  over=["inputs", "histories", "configurations"],
  qtext="all parameters (narrow, wide, far from zero), all interleavings of the three generators, blocks of draws of any number",
  why="Unit tests use single draws and only sample sizes of filters; a wrong scale, an interval that includes its end, reuse of a state or a restarted stream only shows in the law of many draws under particular parameters.",
  files=["wrappers/rng/rng.cpp", "wrappers/rng/rng.h"],
  state=[("Boost_Rng", "generator state", "wrappers/rng/rng.cpp")],
  mech=[("rnorm, runif", "wrappers/rng/rng.cpp")],
  observe=["frequencies of draws below points of the distribution function", "joint frequencies of neighbouring draws", "mean, variance and range"]),
]
