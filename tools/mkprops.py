"""Writes properties.jsonl and MANIFEST.json. Run from /verif: python3 tools/mkprops.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, level_note, technique, state=()):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None),
        _note=level_note, _tech=technique,
    ))


p("C01", "Algebra of polynomials and exponentiated quadratics",
  "Every expression built from constants, variables, +, -, *, integer powers and substitution with the polynomial "
  "and exponentiated-polynomial types of gpcm.exppoly evaluates to the value that the same expression has in exact "
  "arithmetic. Collected coefficients, the highest power of a variable, rejection of a variable, equality of expressions that are "
  "equal after merging like terms and discarding zero terms, and hashing of equal factors and terms agree with the mathematical polynomial. "
  "No operation modifies its operands.",
  ["programs", "inputs"], "All expression trees and operation histories up to a depth over a small alphabet of variables, integers and floats.",
  "tests/test_exppoly.py evaluates a handful of fixed expressions; merging, cancellation and substitution interact in ways that depend on the whole expression.",
  ["gpcm/exppoly.py"],
  [("Poly/Term/Factor operator overloads, simplification and substitution", "gpcm/exppoly.py"), ("ExpPoly.__mul__/substitute/eval", "gpcm/exppoly.py")],
  ["Poly.eval", "Poly.collect", "Poly.highest_power", "Poly.reject", "ExpPoly.eval", "ExpPoly.substitute"],
  "Exhaustive within depth bounds; polynomials are compared with exact rational arithmetic, exponentiated ones with floating point evaluation.",
  "bounded exhaustive enumeration of expression trees and operation histories, run on the implementation against an exact reference model")

p("C02", "Gaussian integrals of exponentiated quadratics",
  "integrate, integrate_half and integrate_box return the value of the integral of the exponentiated quadratic over the whole line, "
  "a half-line or a box with finite, half-infinite, infinite, reversed and symbolic limits, in one or two variables, and broadcast over array-valued inputs. "
  "The result does not depend on the order of the integration variables, the results in JAX (compiled or not) and their derivatives agree, and "
  "expressions which are not quadratic in the variable of integration, malformed limits and more than two limited variables are rejected with an error.",
  ["inputs", "programs"], "All combinations of limit kinds, variables, quadratic coefficients from a grid, and scalar or array evaluation.",
  "The tests check a few limits with one sign of coefficient; which closed form is used depends on the combination of limits and of correlations.",
  ["gpcm/exppoly.py"],
  [("ExpPoly.integrate, integrate_half, integrate_box and their helpers", "gpcm/exppoly.py")],
  ["ExpPoly.integrate", "ExpPoly.integrate_half", "ExpPoly.integrate_box"],
  "Exhaustive over the grid; oracle is adaptive quadrature and closed forms in NumPy/SciPy. Agreement to 1e-6 or so relative.",
  "bounded exhaustive enumeration of integrands and limits, run on the implementation against a quadrature reference")

p("C03", "Covariance integrals of the GPCM and CGPCM",
  "For every setting of parameters and inducing points, the matrices compute_K_u, compute_K_z, compute_i_hx, compute_I_ux, compute_I_hz and compute_I_uz "
  "of the GPCM and CGPCM equal the integrals of products of the prior covariances that define them, for all times, separate or joint, in any order, "
  "with the causal limits applied in the CGPCM. K_u and K_z are symmetric positive definite and k_h() agrees with the filter covariance, including its scale.",
  ["configurations", "inputs"], "All combinations of model, parameters from grids, inducing inputs (also negative) and times.",
  "tests/test_gpcm.py compares with Monte-Carlo-like quadrature for a single configuration per model.",
  ["gpcm/gpcm.py", "gpcm/exppoly.py"],
  [("compute_* methods", "gpcm/gpcm.py"), ("k_h, k_xs", "gpcm/gpcm.py")],
  ["compute_K_u", "compute_K_z", "compute_i_hx", "compute_I_ux", "compute_I_hz", "compute_I_uz", "k_h()"],
  "Exhaustive over the configuration grid; oracle is Gauss-Legendre quadrature of the definitions, 1e-6 relative.",
  "bounded exhaustive enumeration of configurations, run on the implementation against a quadrature reference model")

p("C04", "Covariance integrals of the RGPCM",
  "For every setting of parameters with gamma < alpha, inducing points, frequencies in any order and times in [a + max t_u, b], the matrices compute_K_u, compute_K_z, "
  "compute_i_hx, compute_I_ux (up to symmetrisation), compute_I_hz and compute_I_uz of the RGPCM equal the integrals and inner products that define them. "
  "K_z is the matrix of RKHS inner products of the Fourier features and everything is permuted consistently when the frequencies are.",
  ["configurations", "inputs"], "All combinations of parameters from grids, frequency sets and permutations, and times.",
  "tests/test_rgpcm.py checks one configuration; cases split on signs and coincidences of times, frequencies and inducing points.",
  ["gpcm/rgpcm.py", "gpcm/util.py"],
  [("compute_* methods, integral_abcd, _I_hx_0_cos, _I_hx_0_sin", "gpcm/rgpcm.py"), ("invert_perm", "gpcm/util.py")],
  ["compute_K_u", "compute_K_z", "compute_i_hx", "compute_I_ux", "compute_I_hz", "compute_I_uz"],
  "Exhaustive over the configuration grid; oracle is quadrature of the definitions, 1e-6 relative.",
  "bounded exhaustive enumeration of configurations, run on the implementation against a quadrature reference model")

p("C05", "Kernel given the inducing variables of the filter",
  "kernel_approx(t1, t2, u) is the second moment of the process conditional on the filter taking the values u at the inducing points. "
  "It is therefore symmetric in its times, yields positive semi-definite matrices, is stationary, averages to the prior kernel when u is distributed like the prior, "
  "and the prior kernel has power one at zero under the default scale of the window.",
  ["configurations", "inputs"], "All models, parameters, vectors u from a grid including zero and large values, and all pairs of times.",
  "The tests only check shapes and a single sample.",
  ["gpcm/model.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"],
  [("kernel_approx", "gpcm/model.py"), ("compute_I_ux, compute_i_hx", "gpcm/gpcm.py, gpcm/rgpcm.py")],
  ["model.kernel_approx"],
  "Exhaustive over the grid; the average over the prior of u is evaluated exactly by a symmetric cubature.",
  "bounded exhaustive enumeration of configurations and inputs, run on the implementation against a quadrature reference model")

p("C06", "Defaults derived by the constructors",
  "For every combination of keyword arguments the constructors of GPCM, CGPCM and RGPCM derive the documented defaults: parameters from window and scale, "
  "numbers and locations of inducing points from window, scale and t with caps that warn when they apply, and extension of the inducing points on the appropriate sides. "
  "An argument that is given explicitly always wins over its default (but a gamma of the RGPCM above alpha / 1.5 is lowered to that), the default scales normalise the prior to unity power and the transforms to unit variance, and "
  "inputs are not modified.",
  ["configurations"], "The full product of settings of window, scale, n_u, n_z, extension, forms of t and caps, and all overrides alone and in pairs.",
  "The tests construct each model in one or two ways.",
  ["gpcm/gpcm.py", "gpcm/rgpcm.py"],
  [("GPCM.__init__, scale_to_factor, factor_to_scale", "gpcm/gpcm.py"), ("RGPCM.__init__", "gpcm/rgpcm.py")],
  ["attributes of the constructed model"],
  "Exhaustive over the product; the reference is written from the documentation.",
  "bounded exhaustive enumeration of configurations, run on the implementation against a reference model")

p("C07", "Constraints and fixing of parameters",
  "Whatever values an optimiser gives the unconstrained parameters of a model, the instantiated model has positive noise, scales and decays, gamma < alpha in the RGPCM, and "
  "inducing points of the filter strictly within bounds around their initial range. A parameter for which fixing is requested does not appear among the learnable "
  "parameters and keeps its value, as do the scales of the transforms, whereas the others are all learnable. A fresh instance has exactly the values given to the constructor, "
  "and instantiating never changes the model's own attributes.",
  ["configurations", "inputs"], "All settings of the fix flags, signs of the inducing points, and latent vectors from a grid in every coordinate, alone and jointly.",
  "The tests check only that initial values survive instantiation for one configuration.",
  ["gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/model.py"],
  [("GPCM.__prior__", "gpcm/gpcm.py"), ("RGPCM.__prior__", "gpcm/rgpcm.py")],
  ["attributes of model(vs)", "model.vs.names", "model.vs.get_latent_vector"],
  "Exhaustive over the grid of latent values within [-8, 8].",
  "bounded exhaustive exploration of configurations and latent states of the implementation")

p("C08", "Natural parametrisation of the normal distribution",
  "For every natural parameter lam and positive-definite precision in dense, diagonal or diagonal-plus-low-rank representation, and for every order in which they are accessed, mean, var, m2, kl, logpdf, "
  "dtype, dim and the conversions to and (for dense and diagonal ones) from a mean and variance agree with the normal distribution with that precision and mean prec^-1 lam. Samples are that mean "
  "plus a linear map of standard normal draws whose outer product is exactly the variance, with one independent column per sample. No access changes the parameters or later results.",
  ["histories", "inputs"], "All access sequences up to a length over all attributes, all dimensions up to 4 and all matrix types, and all basis vectors of the noise.",
  "tests/test_normal.py uses one random distribution per test and can only compare samples with their law statistically.",
  ["gpcm/normal.py"],
  [("cached mean/var/m2", "gpcm/normal.py"), ("sample, kl, logpdf", "gpcm/normal.py")],
  ["NaturalNormal.*"],
  "Exhaustive over access orders and basis noise; the linear map of the sampler is identified completely.",
  "explicit-state exploration of access histories of the implementation with scripted randomness against a reference model")

p("C09", "Evidence lower bounds and optimal conditionals",
  "The mean-field ELBO equals the expected log-likelihood minus both KL divergences; collapsing over u or z maximises it over that factor; every value is at most the log marginal likelihood "
  "of the inducing-variable model, and the structured ELBO with given samples equals its definition, is at least the mean-field bound in expectation and never exceeds the "
  "log marginal likelihood in expectation. The optimal conditionals of u and z are the exact posteriors given the other. "
  "For a mean-field model that was conditioned before, the previous posterior takes the place of the prior in all of these. This holds for all data, also with repeated and unsorted times.",
  ["configurations", "inputs"], "All models, parameter sets, data sets and variational distributions from grids, collapsed or not.",
  "The tests compare a few ELBOs after optimisation with loose tolerances.",
  ["gpcm/approx.py"],
  [("construct_terms, _q_optimal, log_Z_u, elbo", "gpcm/approx.py")],
  ["approximation.elbo", "approximation.elbo_collapsed_z", "q_u_optimal(_mean_field)", "q_z_optimal(_mean_field)"],
  "Exhaustive over the grid; oracle evaluates the definitions from quadrature-checked integrals with dense cubature over u.",
  "bounded exhaustive enumeration of configurations with scripted randomness, run on the implementation against a reference model")

p("C10", "Coordinate ascent",
  "Every iteration of the mean-field coordinate ascent replaces q(u) and then q(z) by their optima given the other, so that the ELBO never decreases. "
  "It performs the requested number of iterations, stops early only once the change falls under the tolerance, reports every iterate to the callback, stores the last iterate, and does not touch the "
  "hyperparameters or earlier posteriors. Converged solutions are fixed points.",
  ["histories", "configurations"], "All iteration counts up to a bound from all initial posteriors in a grid, for all models.",
  "The tests only look at the ELBO after complete fits.",
  ["gpcm/approx.py"],
  [("_fit_mean_field_ca", "gpcm/approx.py")],
  ["fit with scheme mean-field-ca", "q_u, q_z, ELBO after every number of iterations"],
  "Every iterate of the transition system is compared with a reference model.",
  "explicit-state exploration of the coordinate-ascent transition system, replayed on the implementation against a reference model")

p("C11", "Posterior predictions",
  "After conditioning, predict returns the exact mean and variance (plus noise) of the process under the approximate posterior: under q(u)q(z) for mean-field schemes, and under the stored samples of u with "
  "their optimal q(z|u) for the structured scheme. Predictions do not depend on which other times are predicted along with it, or in which order, and variances are at least the noise.",
  ["configurations", "inputs"], "All models, posteriors from grids, and all subsets, orders and repetitions of a set of prediction times.",
  "The tests check that predictions run and have the right shape.",
  ["gpcm/approx.py"],
  [("_predict_moments, predict", "gpcm/approx.py")],
  ["posterior.predict"],
  "Exhaustive over the grid; oracle by quadrature-checked integrals and direct expectations.",
  "bounded exhaustive enumeration of configurations and batches, run on the implementation against a reference model")

p("C12", "Saving and loading",
  "Loading a saved model into any freshly constructed model of the same kind, instantiated or not, or fitted before, gives a model with exactly the saved variables, identical predictions and ELBO, and which can be saved further and, "
  "if it was instantiated before loading or the scheme is coordinate ascent, fitted further. A file that was cut short at any byte is rejected with an error and leaves the model's variables unchanged. Saving leaves the model unchanged.",
  ["histories", "crash_points"], "All histories of instantiate, fit, save, load and continue up to a depth for all schemes, and every truncation of the saved file.",
  "The tests do one save and load for one model.",
  ["gpcm/model.py"],
  [("AbstractGPCM.save/load", "gpcm/model.py")],
  ["model.save", "model.load", "model.vs"],
  "All histories and all truncation points.",
  "explicit-state exploration of save/load histories and all crash points of the written file on the implementation against a reference model")

p("C13", "Lifecycle of models",
  "Conditioning, predicting, sampling and evaluating the ELBO never modify a model, its data or its learned variables (except that the ELBO of the structured scheme may fit q(u) and q(z), "
  "as it is defined in terms of a fit): any history of these operations gives the same result for an operation as that operation alone under the same random state. "
  "Conditioning gives a new model and leaves the prior usable. Passing a random state gives a new random state and a result that does not depend on the global one.",
  ["histories"], "All sequences of operations up to a depth for all models and schemes.",
  "The tests call each operation once, on fresh models.",
  ["gpcm/model.py", "gpcm/approx.py"],
  [("condition, p_u/q_u indexing", "gpcm/approx.py"), ("__prior__, __condition__", "gpcm/model.py")],
  ["model.condition/elbo/predict/sample/predict_kernel"],
  "All histories up to the bound.",
  "explicit-state exploration of operation histories on the implementation, every result compared with the single-operation model")

p("C14", "Fitting under every scheme",
  "fit runs for every model and every documented scheme, changes only the variables that the scheme may learn (only the variational posterior for coordinate ascent or with hyperparameter optimisation off; never fixed parameters or "
  "previous posteriors), keeps all parameters valid, and does not lower the ELBO for mean-field schemes. Given initial values of the variational posterior it is deterministic whatever the global random state, structured fits store exactly 1000 joint posterior samples, and unknown schemes are rejected. "
  "Fits of conditioned mean-field models take the previous posterior as the prior.",
  ["configurations", "histories"], "All models by all schemes by fix flags by repeated fits.",
  "The tests fit a subset of the schemes on one data set.",
  ["gpcm/approx.py", "gpcm/model.py"],
  [("fit dispatch, ignore_qs", "gpcm/approx.py"), ("scheme selection", "gpcm/model.py")],
  ["model.fit", "model.vs"],
  "All combinations of models and schemes for small models and few iterations.",
  "explicit-state exploration of all fit configurations on the implementation")

p("C15", "Law of samples from the prior",
  "sample(t) draws the inducing values of the filter from their prior, evaluates the kernel matrix given these, and draws the function from that kernel matrix and adds independent noise with the "
  "model's noise variance: the returned kernel matrix is kernel_approx at the drawn u, and given the draws the function is a linear map of standard normals with covariance K plus noise. With normalise=True the kernel matrix has unit diagonal.",
  ["inputs", "configurations"], "All models, all time vectors from a set, and all basis vectors of the underlying noise.",
  "The tests check shapes only.",
  ["gpcm/model.py"],
  [("sample", "gpcm/model.py")],
  ["model.sample"],
  "The linear map of the sampler is identified completely by scripted noise.",
  "exhaustive enumeration of scripted random draws on the implementation against a reference model")

p("C16", "Elliptical slice sampling",
  "For every sequence of random draws, a transition of ESS (with up to a hundred proposals per ellipse) draws a slice height under the current log-likelihood, proposes points on the ellipse through the current state and a prior sample with the angle drawn uniformly from the bracket, shrinks the bracket towards zero after rejections, and accepts the first "
  "proposal above the slice. After too many attempts it starts over; the stored state always is the last accepted one with its log-likelihood, and every sample is returned in order. On request, progress reports the log-likelihood, the number of proposals and, after a burn-in, the effective sample size.",
  ["schedules", "inputs"], "All outcomes of random draws from a grid of quantiles up to a number of attempts and transitions, for several likelihoods.",
  "tests/test_sample.py compares moments of one long chain.",
  ["gpcm/sample.py"],
  [("ESS", "gpcm/sample.py")],
  ["ESS.sample", "ESS.x", "ESS.log_lik_x"],
  "All decision sequences up to the bound.",
  "explicit-state exploration of all random-draw schedules of the implementation against a reference model")

p("C17", "Power spectral density and autocorrelation estimates",
  "For kernels whose zero-padded symmetrisation has at least three points, estimate_psd returns the non-negative frequencies of the zero-padded symmetrised kernel with a PSD that is the absolute value of its Fourier transform, scaled so that the total power over all frequencies equals the kernel at zero, in decibels on request; times that do not start at zero are rejected. "
  "autocorr returns the biased or unbiased sample autocovariances of the centred data or their ratio to the variance, for the requested lags.",
  ["inputs"], "All short kernels and series over a small alphabet, all lengths, paddings, spacings and options.",
  "The tests do not check the scale of the PSD and check autocorr on one series.",
  ["gpcm/util.py"],
  [("estimate_psd, autocorr", "gpcm/util.py")],
  ["estimate_psd", "autocorr"],
  "Exhaustive over all series within the bounds; the reference is written with explicit sums.",
  "bounded exhaustive enumeration of inputs, run on the implementation against a reference model")

p("C18", "Summaries of samples and minimum-phase filters",
  "summarise_samples returns the inputs, the mean, variance and central 68, 95 and 99.7 percent intervals (between the quantiles 0.16 and 0.84, 0.025 and 0.975, and 0.0015 and 0.9985) over the samples at every input, three distinct of the samples and all samples, with the first dimension of the samples last, in decibels (but for the variance) on request. "
  "min_phase preserves the magnitude of the spectrum of a filter, is invariant to its sign and to circular shifts, and does not change filters that are minimum-phase, up to the aliasing of the "
  "discrete cepstrum, which vanishes for zero-padded filters.",
  ["inputs"], "All small sample arrays over an alphabet, all shapes, and all short filters over an alphabet with a non-vanishing spectrum.",
  "Not tested beyond being called.",
  ["gpcm/util.py"],
  [("summarise_samples, min_phase, collect", "gpcm/util.py")],
  ["summarise_samples", "min_phase"],
  "Exhaustive over all inputs within the bounds.",
  "bounded exhaustive enumeration of inputs, run on the implementation against a reference model")

p("C19", "Nearest PSD matrices, MAP and Laplace approximations",
  "closest_psd returns the symmetric PSD matrix nearest to the symmetric part of its input in Frobenius norm, and with inv=True the pseudo-inverse restricted to the positive eigenvalues. invert_perm inverts every permutation; "
  "hessian is the exact symmetric matrix of second derivatives and rejects other than column vectors. maximum_a_posteriori finds the mode of concave densities from any start and laplace_approximation is exact for Gaussians.",
  ["inputs"], "All symmetric and non-symmetric matrices over a small alphabet up to size 3, all permutations up to size 6, families of polynomials and Gaussians.",
  "Not tested, or on a single random matrix.",
  ["gpcm/util.py"],
  [("closest_psd, invert_perm, hessian, maximum_a_posteriori, laplace_approximation", "gpcm/util.py")],
  ["closest_psd", "invert_perm", "hessian", "maximum_a_posteriori", "laplace_approximation"],
  "Exhaustive over all matrices within the bounds.",
  "bounded exhaustive enumeration of inputs, run on the implementation against a reference model")

p("C20", "Predictions for kernel, PSD, filter and Fourier features",
  "Samples of the posterior kernel are kernel_approx at samples of u from the current posterior (stored samples for the structured scheme), and predictions of the kernel, PSD, filter and Fourier features summarise exactly "
  "these samples, at the documented default inputs, with at most the requested number of samples. Filters of the GPCM (and of the CGPCM for inducing points and times that are not negative) are samples from the prior of the filter conditioned on the sample of u and Fourier features have the posterior's marginal moments.",
  ["configurations", "histories"], "All models by schemes by prediction kinds by numbers of samples, with scripted or stored samples.",
  "The tests check that the methods run.",
  ["gpcm/model.py", "gpcm/approx.py"],
  [("predict_kernel, predict_psd, predict_filter, predict_fourier", "gpcm/model.py"), ("sample_kernel, predict_z", "gpcm/approx.py")],
  ["predict_kernel", "sample_kernel", "predict_psd", "predict_filter", "predict_fourier"],
  "All combinations for small models.",
  "exhaustive enumeration of prediction configurations with scripted randomness, run on the implementation against a reference model")

p("C21", "Experiment driver",
  "For every set of model names and options, the experiment driver builds exactly the requested models in the order GPCM, CGPCM, RGPCM with the given settings, rejects unknown names, trains each on the data with the given "
  "configuration and saves it, or loads every one without training when asked to. Hyperparameters are optimised unless fixing is requested and iterations are forwarded only if given.",
  ["configurations"], "All subsets and orders of names by all options, with recording models.",
  "There are no tests of the driver.",
  ["experiments/experiment.py"],
  [("run, build_models, train_models, setup", "experiments/experiment.py")],
  ["experiments.experiment.run/build_models/train_models"],
  "Exhaustive over the options; training itself is replaced by recorders.",
  "exhaustive enumeration of configurations of the implementation with recording stand-ins against a reference model")

p("C22", "What optimisers are given",
  "For every model, scheme, parameters and data, the objective that fitting hands to the optimiser is the negative ELBO (for the structured scheme: the negative log-density of data and u at the current Gibbs sample, which is held fixed) "
  "as a function of exactly the learnable parameters. Compiled and uncompiled evaluation agree, and the gradient is exact and finite, also for coinciding observations and observations at inducing points.",
  ["gradients", "optimisation"], "All models by ways to collapse by data sets by moves of every latent coordinate; every point that the optimiser visits.",
  "The tests only check that fits improve; a wrong or non-finite gradient slows convergence or stops it somewhere else without failing.",
  ["gpcm/model.py", "gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/approx.py", "gpcm/exppoly.py"],
  [("fit (dispatched on MeanField and Structured), elbo, elbo_gibbs", "gpcm/approx.py"), ("safe_sqrt, ExpPoly", "gpcm/exppoly.py"), ("compute_I_ux", "gpcm/rgpcm.py")],
  ["model.fit", "model.elbo"],
  "Exhaustive over the states; gradients are compared with sixth-order differences of values.",
  "exhaustive enumeration of states of the optimisation on the implementation, with every call of the optimiser monitored against differences and the reference ELBO")

p("C23", "Representation invariance",
  "For every problem, inference does not depend on how the problem is represented: the unit of time, the unit of the observations, the origin of time, the order of inducing points and frequencies, and, for the GPCM, the direction of time. "
  "ELBOs (up to the Jacobian), optimal conditionals, coordinate ascent, predictions, and kernels of the transformed problem are those of the original problem, rescaled.",
  ["invariance", "numerics"], "All models by variational distributions by transformations and pairs of them; all permutations.",
  "The tests run at one scale near the origin.",
  ["gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/exppoly.py", "gpcm/approx.py"],
  [("compute_I_ux, compute_I_hx, compute_K_u, compute_K_z, compute_i_hx", "gpcm/gpcm.py"), ("compute_I_ux, compute_I_hx, compute_I_hz, compute_K_z", "gpcm/rgpcm.py"), ("ExpPoly", "gpcm/exppoly.py")],
  ["model.condition", "model.elbo", "model.predict", "model.kernel_approx"],
  "Exhaustive over the listed group elements; agreement to 1e-5.",
  "exhaustive enumeration of symmetry transformations and their compositions on the implementation")

p("C24", "Analysis of the experiment driver",
  "For every list of trained models and every set of options, the analysis reports the ELBO of every model and, if given, the likelihoods under the true and the optimised comparative GP; and it plots, for every model, the mean of the predictions with bands of "
  "the function and of the observations, the kernel, the PSD and the Fourier features of the posterior given the data, along with the data, the truth, and the estimates from equally spaced data, within given ranges, saving files only if a directory is given.",
  ["configurations", "reporting"], "All lists of models by all options, with stand-ins of which all predictions are known.",
  "There are no tests of the analysis.",
  ["experiments/experiment.py"],
  [("analyse_models, analyse_elbos, analyse_plots", "experiments/experiment.py")],
  ["experiments.experiment.analyse_models/analyse_elbos/analyse_plots"],
  "Exhaustive over the options; what is drawn is read from the figures.",
  "exhaustive enumeration of configurations of the implementation with known stand-ins, comparing the contents of all figures with a reference")

p("C25", "Example experiments",
  "The examples hand the driver arguments that it accepts and valid models can be built from. In eq and smk the data are observed at equally spaced times from -44 to 44 without [-8.8, 8.8], truth and data are drawn jointly from a GP with the given true kernel, of unit variance, "
  "plus the given noise, and what is plotted are distinct increasing times within the range of the data that resolve the removed region; the comparative kernel starts at an EQ kernel plus noise and has a positive variance, scale and noise to learn. In mauna_loa, "
  "the data are the last 200 detrended observations, normalised, at times from zero, with fixed window and scale.",
  ["configurations", "inputs"], "All examples, all standard normal draws of the simulation on coarser grids, and stand-ins for the data set.",
  "The examples are not tested.",
  ["experiments/eq.py", "experiments/smk.py", "experiments/mauna_loa.py"],
  [("module", "experiments/eq.py"), ("module", "experiments/smk.py"), ("module", "experiments/mauna_loa.py")],
  ["experiments.experiment.run"],
  "The law of the simulated data is identified completely by scripted noise.",
  "exhaustive enumeration of scripted random draws and data sets on the implementation against a reference model")

p("C26", "Large problems are composed of their parts",
  "For every number of observations, times, inducing points, features, samples and dimensions, results do not change with the size of the problem: every entry of the covariance integrals depends on its own times and inducing variables only; kernels and predictions "
  "at many times are those at each; expected log-likelihoods and the optimal natural parameters are sums over observations; predictions are averages over all stored samples, of which by default up to a thousand are used; and any number of samples are as many independent ones with the same law.",
  ["sizes"], "All sizes up to a bound and around round numbers beyond it.",
  "The tests use one size each, mostly small.",
  ["gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/approx.py", "gpcm/model.py", "gpcm/normal.py", "gpcm/util.py", "gpcm/sample.py"],
  [("compute_*", "gpcm/gpcm.py"), ("compute_*", "gpcm/rgpcm.py"), ("construct_terms, elbo, predict", "gpcm/approx.py"), ("kernel_approx, sample", "gpcm/model.py"), ("sample", "gpcm/normal.py")],
  ["model.compute_*", "model.kernel_approx", "model.elbo", "model.predict", "model.sample", "NaturalNormal.sample"],
  "Exhaustive over sizes within the bounds; parts are at most six.",
  "exhaustive enumeration of problem sizes on the implementation, comparing the whole with its parts")

p("C27", "Forecasts of the paper hold out what they test on and keep the units of the data",
  "For all data sets: the crude oil experiment takes all data of the year, with times in days from its first day; holds out every other week of the second half of the year; standardises with the mean and scale of the training data only; gives every model the training data only, with the options "
  "of the command line; and saves predictions of the function, kernel and PSD that are transformed back to the units of the data (means, variances, and decibels). Its aggregation reports averages, and errors of averages, over all years. The volatility forecasts train on the "
  "data before the forecasts, condition on the data of the four weeks before every forecast, and predict the week after; their processing reports the errors of exactly those forecasts. A model is loaded exactly if it is not trained, and is the one that was saved.",
  ["data sets", "options"], "All weekly patterns of missing days, years, and combinations of options.",
  "The experiments are not tested, and the data sets need a network.",
  ["experiments/paper/crude_oil.py", "experiments/paper/crude_oil_aggregate.py", "experiments/paper/vix_forecast.py", "experiments/paper/vix_forecast_process.py", "experiments/paper/vix_analyse.py"],
  [("module", "experiments/paper/crude_oil.py"), ("module", "experiments/paper/crude_oil_aggregate.py"), ("module", "experiments/paper/vix_forecast.py"), ("module", "experiments/paper/vix_forecast_process.py"), ("module", "experiments/paper/vix_analyse.py")],
  ["crude_oil", "vix_forecast"],
  "The scripts are executed with stand-ins for data sets and models. Predictions of the stand-ins depend on all that they are given.",
  "exhaustive enumeration of patterns of data and options on the scripts, against a reference model of the splits and transformations")

p("C28", "Synthetic experiments simulate what they state and report the right results",
  "Data are drawn jointly from the stated kernel with the stated noise; samples of the priors have, given the sampled filter, the kernel that is shown, normalised; rejection loops use the last candidates and no rejected ones; all models that are compared are configured "
  "equally but for the scheme, are trained on the data and start equally; and the statistics and curves that are reported and shown under a label are those of the model with that label, with credible bounds of the stated levels, whether computed anew or loaded from files.",
  ["random draws", "configurations"], "All standard normal draws on coarser grids, and all sequences of rejections up to a bound.",
  "The experiments are not tested.",
  ["experiments/paper/comparison.py", "experiments/paper/comparison_process.py", "experiments/paper/smk.py", "experiments/paper/sample.py", "experiments/paper/sample_interpolation.py", "experiments/paper/priors.py", "experiments/paper/compare_inference.py"],
  [("module", "experiments/paper/comparison.py"), ("module", "experiments/paper/comparison_process.py"), ("module", "experiments/paper/smk.py"), ("module", "experiments/paper/sample.py"), ("module", "experiments/paper/sample_interpolation.py"), ("module", "experiments/paper/priors.py"), ("module", "experiments/paper/compare_inference.py")],
  ["comparison", "smk", "sample", "priors", "compare_inference"],
  "The laws of simulated data and samples are identified completely by scripted noise.",
  "exhaustive enumeration of scripted random draws on the scripts, against a reference model")

NA = {}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}) + "\n")

checks, na = [], []
for x in P:
    if os.path.exists(os.path.join(ROOT, "checks", x["id"].lower() + ".py")):
        checks.append(dict(
            property=x["id"], quick_cmd=f"./run.py {x['id']}", thorough_cmd=f"./run.py {x['id']} --tier thorough",
            evidence_file=f"evidence/{x['id']}.json", technique=x["_tech"], level="model_checking", level_note=x["_note"],
        ))
    else:
        na.append(dict(property=x["id"], reason=NA.get(x["id"], "check under construction")))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./run.py --selftest", checks=checks, not_applicable=na,
                   notes="No hooks in /repo are needed. See DESIGN.md."), f, indent=1)
    f.write("\n")
for x in P:
    assert len(x["title"]) <= 80
print(len(checks), "checks,", len(na), "not applicable")
