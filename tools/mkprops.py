"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
FG = "drdmannturb/fluctuation_generation/fluctuation_field_generator.py"
LF = "drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py"
CK = "drdmannturb/fluctuation_generation/covariance_kernels.py"
NN = "drdmannturb/fluctuation_generation/nn_covariance.py"
GRF = "drdmannturb/fluctuation_generation/gaussian_random_fields.py"
SM = "drdmannturb/fluctuation_generation/sampling_methods.py"
WP = "drdmannturb/fluctuation_generation/wind_plot.py"
CAL = "drdmannturb/spectra_fitting/calibration.py"
OPS = "drdmannturb/spectra_fitting/one_point_spectra.py"
LOSS = "drdmannturb/spectra_fitting/loss_functions.py"
DG = "drdmannturb/spectra_fitting/data_generator.py"
COM = "drdmannturb/common.py"
NNM = "drdmannturb/nn_modules.py"
PAR = "drdmannturb/parameters.py"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Blocks append, and how the calls are split does not matter",
  "Successive generation calls on one wind-field generator only ever append blocks: what was generated before is never changed, and every call returns the whole field accumulated so far, which is also what the generator exposes. "
  "The field after n blocks is the same however the n blocks are spread over calls, including calls for zero blocks and calls with different mean profiles (each block then carries the profile of its own call). "
  "Every block contributes exactly 2^level+1 planes in x, whatever the blend width.",
  ["histories", "configurations"], "all sequences of generation calls on a generator, all grid levels, blend widths, models, with and without the low-frequency field",
  "The tests generate once per object, with one block; appending, splitting and carrying the noise window between calls is never executed twice on one object.",
  [FG], [("rolled noise window carried between blocks", FG+":_generate_block"), ("concatenation into the accumulated field", FG+":generate"), ("low-frequency position derived from the accumulated length", FG+":generate")],
  [("total_fluctuation", "accumulated field", FG), ("noise", "current noise window", FG)], ["return value of generate", "total_fluctuation"])
p("C02", "A seed fixes the field, and generators do not disturb each other",
  "Two generators built with the same configuration and the same seed (any seed numpy accepts, 0 included) produce the same field, the low-frequency part included, whatever other generators exist, in whatever order calls on them are interleaved, and whatever the process does with the global random generators. "
  "Different seeds, or no seed, give fields that differ in both parts. "
  "Generating a field never advances numpy's or torch's global random state, and building a seeded generator never touches numpy's.",
  ["histories", "schedules", "configurations"], "all interleavings of construction and generation calls over several generators and of global random draws; all seeds",
  "The tests never compare two generators, and never interleave them.",
  [FG, GRF, LF], [("private RandomState per random field", GRF+":reseed"), ("spawned seed for the low-frequency field", FG+":__init__")],
  [("prng", "private random state", GRF)], ["generate", "np.random.get_state", "torch.get_rng_state"])
p("C03", "Each block is a kernel-correlated window of one noise stream",
  "Block b of the field is, up to its normalisation, the central part of the kernel-correlated Gaussian noise in planes b*Nx .. b*Nx+W-1 of one continuous noise stream fixed by the seed, so that neighbouring blocks share all but Nx of their noise planes and join without a seam. "
  "The window extends the block by ceil(3*Gamma*L/dx) planes on both sides in x (plus the blend width minus one, when positive), by ceil(L/dy) points on both sides in y and by twice ceil(L/dz) points above in z. "
  "The spacings are the domain dimensions divided by 2^level+1.",
  ["inputs", "configurations", "histories"], "all seeds, grids, scales, blend widths and block indices, for the VK, Mann and DRD models",
  "No test looks at the correlation across blocks or at the buffers; a wrong slice or roll still gives a plausible field of the right shape.",
  [FG, GRF, SM], [("noise window, roll and refill", FG+":_generate_block"), ("buffer and margin sizes", FG+":__init__"), ("white noise scaled to the cell", GRF+":sample_noise")],
  [("noise_shape, central_part, new_part", "window geometry", FG)], ["generate"])
p("C04", "Every block is unit-variance turbulence plus the requested mean profile",
  "After removing the low-frequency part, each generated block is a fluctuation whose root-mean-square over all points and the three components is exactly 1, plus the mean profile, which is added to the streamwise component only and depends on height only. "
  "The profile is uref*ln(z/z0+1)/ln(zref/z0) for the logarithmic law and uref*(z/zref)^alpha for the power law, with z running from 0 to the domain height inclusive over the 2^level+1 grid heights. "
  "The fluctuation does not depend on the profile requested.",
  ["inputs", "configurations"], "all admissible profile parameters, grids, models and blocks",
  "The repository's only test of the normalisation checks that it runs.",
  [FG], [("division by the RMS of the block", FG+":_normalize_block"), ("log_law, power_law", FG)], [], ["generate", "log_law", "power_law"])
p("C05", "Inadmissible generation calls are refused and change nothing",
  "A request for one or more blocks with an unknown profile type, a reference height, reference speed or roughness that is zero or negative, or a power law without exponent raises ValueError. "
  "A refused call leaves no trace: the exposed field is unchanged and all later blocks are exactly those that would have been generated had the call never been made. "
  "Admissible calls are never refused.",
  ["histories", "fault_sequences", "inputs"], "all positions of refused calls in a history of calls, all kinds of bad argument",
  "The tests do not make a call that is refused and then continue with the same object.",
  [FG], [("profile validation before any noise is drawn", FG+":generate")], [], ["generate"])
p("C06", "Spectral kernels are incompressible, odd and finite",
  "For every wavevector, the square-root spectral kernels of the von Karman, Mann and neural models satisfy k . G(k) = 0, i.e. generated fields are solenoidal mode by mode (the plane k1 = 0 included). "
  "G is purely imaginary with G(-k) = -G(k), so real noise gives a real field, and G vanishes at k = 0. "
  "All entries are finite at every lattice point, including points on the coordinate axes and planes, for any positive length, amplitude and time scale.",
  ["inputs", "configurations"], "all wavevectors (axes, planes and zero included), all positive scales, three kernels",
  "A property of every wavevector; no test evaluates a kernel.",
  [CK, NN], [("isotropic curl kernel", CK+":VonKarmanCovariance.precompute_Spectrum"), ("rapid-distortion transform of it", CK+":MannCovariance.precompute_Spectrum"), ("same with a learned lifetime", NN)], [], ["precompute_Spectrum"])
p("C07", "Kernels factor the documented spectral tensors",
  "G(k) G(k)^H equals the spectral tensor the documentation defines: E(k)/(4 pi k^2) (delta_ij - k_i k_j/k^2) with the von Karman energy spectrum for VK, and the rapid-distortion tensor of Mann (1994) with the IEC eddy lifetime (Mann) or the learned one (DRD). "
  "The generator feeds the kernel the energy amplitude scale*ustar^2*zref^(-2/3), the given length scale and the given time scale. "
  "Time scale zero, and the plane k1 = 0, reduce the sheared tensor to the isotropic one.",
  ["inputs", "configurations"], "all wavevectors with k1 != 0, all scales; all generator arguments",
  "Equality of two functions over a continuum; no test evaluates either side.",
  [CK, NN, FG], [("closed-form kernels", CK), ("scaling of the amplitude", FG+":__init__")], [], ["precompute_Spectrum", "Covariance of a generator"])
p("C08", "Random-field sampling is linear, repeatable and free of side effects",
  "Correlating a noise array gives the same field however many arrays were correlated before, is linear in the noise, and neither changes the array passed in nor any field returned earlier. "
  "For the vector sampler the discrete Fourier transform of the result is G(k) applied to that of the noise, times one positive constant, and the two scalar Fourier samplers agree up to one positive constant with multiplication by the scalar spectrum. "
  "The white noise of a generator is the standard normal sequence of its seed times the square root of the cell volume. An unknown sampling method is refused.",
  ["inputs", "histories"], "all noise arrays, all sequences of calls on one sampler, odd and even grid sizes",
  "The tests never call a sampler twice; the FFT buffers are reused between calls and between directions.",
  [SM, GRF], [("FFTW plans over shared buffers", SM+":Sampling_VF_FFTW"), ("half spectrum", SM)], [("fft_x, fft_y, hat_noise", "reused buffers", SM)], ["sample"])
p("C09", "The low-frequency grid contains the request at its finer spacing",
  "For every low-frequency configuration the internal grid has the same spacing in both directions, equal to the finer of the two requested spacings, an even number of points per direction, and extents of at least five length scales and at least the requested extents, exceeding that minimum by less than two cells (or the two-point minimum). "
  "The requested grid has 2^exp points per direction, starts at 0 and excludes its end point. "
  "A warning is given exactly when a requested extent is below five length scales.",
  ["inputs", "configurations"], "all length scales, extents factors and exponents",
  "The tests pin six configurations and use the class's own intermediate values.",
  [LF], [("_calculate_buffer_sizes", LF)], [("comp_N1, comp_N2, comp_L1, comp_L2", "internal grid", LF)], ["constructor"])
p("C10", "Low-frequency fields follow the two-dimensional spectrum",
  "A generated low-frequency field is real, has zero mean and is divergence-free on the internal periodic grid, and its modes are the white noise filtered with sqrt(E(kappa)/(pi k^3)) in the documented anisotropic spectrum, scaled so that twice the integral of the energy spectrum is the requested variance. "
  "The returned field is the central part of the internal one, with the requested number of points in each direction. "
  "Every generation draws new noise and replaces both components together.",
  ["inputs", "configurations", "histories"], "all configurations and noise realisations; repeated generation",
  "The tests check shapes and a loose variance bound on one realisation per configuration.",
  [LF], [("_generate_numba_helper", LF), ("_compute_c", LF), ("_extract_field_portion", LF)], [("u1, u2, u1_full, u2_full", "fields", LF)], ["generate"])
p("C11", "Low-frequency queries answer for the current field or refuse",
  "Interpolation and spectrum estimation raise RuntimeError until a field was generated, and afterwards always refer to the most recent one. "
  "Interpolation returns the stored values at the grid points, is bilinear between them and zero outside the requested grid, with results indexed (x, y). "
  "The estimated spectrum at every positive wavenumber below Nyquist is the power of that wavenumber summed over the lateral ones with the documented normalisation, and the analytical spectrum is the documented integral of the model spectrum, symmetric in k1 and zero at k1 = 0.",
  ["histories", "inputs"], "all orders of generate and query calls; all target points inside and outside the grid, all configurations",
  "The tests call none of the queries.",
  [LF], [("interp_slice", LF), ("compute_spectrum", LF), ("analytical_spectrum", LF)], [], ["interp_slice", "compute_spectrum", "analytical_spectrum"])
p("C12", "The low-frequency field is superposed in place and once",
  "A 2D+3D field equals the 3D field of the same seed plus the low-frequency field, which is added to the streamwise and lateral components only and is constant in height. "
  "Point (i, j) of block b takes the low-frequency field linearly interpolated at x = b*Lx + i*dx and at y centred in the low-frequency domain, and zero where that lies outside it. "
  "Positions advance over all blocks of the generator, across calls. A call that adds blocks warns if the 3D domain is wider than the low-frequency one, and not otherwise.",
  ["histories", "configurations", "inputs"], "all splits of the blocks over calls, all relative sizes of the two domains",
  "No test builds a 2D+3D generator.",
  [FG, LF], [("block x position from the accumulated field", FG+":generate"), ("centred y coordinates", FG+":generate")], [], ["generate"])
p("C13", "The parameter vector determines the model and is never shared",
  "Reading the parameters of a calibration problem and writing them to any problem of the same architecture makes the two models identical: same spectra, same eddy lifetime, same vector read back; the first three entries are the natural logarithms of length scale, time scale and amplitude, which right after construction are those of the physical parameters. "
  "A vector of the wrong length is refused with ValueError and changes nothing; one of any real precision is accepted, and the model keeps its own. "
  "Arrays or tensors passed in stay the caller's: later changes to them do not affect the model, and calibration does not change them.",
  ["histories", "configurations", "inputs"], "all eddy-lifetime types and architectures, all vectors, all orders of get, set, mutate and evaluate",
  "The tests never write a parameter vector.",
  [CAL], [("parameters getter and setter", CAL), ("log_dimensional_scales", CAL)], [("OPS parameters", "model parameters", OPS)], ["parameters", "eval"])
p("C14", "Saving and loading preserves the model",
  "A model written to disk and loaded from the file reproduces the spectra and eddy lifetime of the saved one exactly, with the configuration it was saved with, whatever happens to the original afterwards and whatever is saved elsewhere; the file holds the network, problem, loss and physical parameters and the parameter vector, in this order, in <directory>/<eddy lifetime>.pkl. "
  "Saving into a path object that is not a directory is refused with ValueError, and saving does not change the model. "
  "A DRD wind-field generator built from the file of a model with a network uses the saved length scale times the reference height, the saved time scale the amplitude 4*pi*L^(-5/3)*sigma*ustar^2*zref^(-2/3), and the eddy lifetime of the saved model.",
  ["histories", "configurations"], "all histories of calibrate, set, save and load; all architectures",
  "The tests for saving are excluded or only check that a file appears.",
  [CAL, FG, COM], [("save_model pickle", CAL+":save_model"), ("load in the generator", FG+":__init__")], [], ["save_model", "FluctuationFieldGenerator(model='DRD')"])
p("C15", "Calibration runs as configured and reports what it reached",
  "Calibration performs at most the configured number of epochs and stops early exactly after the first epoch whose loss is below the tolerance; a non-finite loss raises an error and never returns parameters. "
  "The returned dictionary is the exponential of the first three entries of the final parameter vector (plus the spectrum exponents when they are learned), and is the one stored on the object. "
  "The loss of an epoch is the last one evaluated in it; the learning rate follows the cosine annealing from the configured rate, and LBFGS is given the configured line-search budget. The data passed in are not modified, every learnable parameter is optimised, and with a fixed start the result is reproducible.",
  ["histories", "configurations", "inputs"], "all epoch counts, tolerances, optimisers, eddy-lifetime types and data sets; repeated calibration of one object",
  "The calibration tests are not stable here and assert at most that a loss is small.",
  [CAL], [("training loop", CAL+":calibrate")], [("loss, e_count, calibrated_params", "training state", CAL)], ["calibrate", "calibrated_params"])
p("C16", "The loss is the sum of its documented terms",
  "The value evaluated is the mean squared logarithmic misfit, plus the weighted first- and second-order penalties on rising slope and convexity in log-log space (divided by the reference height and its square), plus the weighted mean square of the network parameters, plus the weighted coherence misfit averaged over the three components. "
  "A term with weight zero contributes nothing and is never evaluated; every term is non-negative, and zero when its defect is absent. "
  "A term that is not a number raises ValueError, and such an evaluation leaves no trace in the history. The gradient of the value is the gradient of that sum.",
  ["inputs", "configurations"], "all spectra, targets, weights and coherence data",
  "The tests never evaluate the loss on its own.",
  [LOSS], [("MSE_term, Pen1stOrder, Pen2ndOrder, Regularization, CoherenceLoss, eval", LOSS)], [], ["LossAggregator.eval and the term methods"])
p("C17", "Loss history, averages and learning-rate advice follow from the values seen",
  "After any sequence of evaluations the recorded history of each term is exactly the sequence of its values, and each running average is the exponential average (weight 0.9 on the past) started at the first value. "
  "Diagnostics over a window are empty until that many evaluations were made, and then are the mean and deviation of the last values, the dominant term, the dominance ratio, the relative improvement of the later half over the earlier and 1/(1+deviation of the total). "
  "The learning-rate advice is the documented decision in its fixed order: too little data, stagnation, instability, dominance, healthy. The scales offered to balance misfit and coherence are inverse magnitudes, averaged in the same way at every tenth evaluation number.",
  ["histories", "inputs"], "all sequences of evaluations, all windows",
  "The tests never look at the history.",
  [LOSS], [("component_losses, running_averages", LOSS), ("get_loss_diagnostics, should_adjust_learning_rate, get_current_loss_info", LOSS)], [("component_losses", "history", LOSS), ("running_averages", "averages", LOSS)], ["get_loss_diagnostics", "should_adjust_learning_rate", "get_current_loss_info"])
p("C18", "Exactly the selected components are fitted, each against its own data",
  "With 3, 4 or 6 components the loss compares model and data for uu, vv, ww, then uw, then vw and uv, each component with its own data; data of components that are not selected have no influence on the fit. "
  "The plot shows all six model spectra and the data of exactly the selected components, each in the panel of its component, the uw panel with its sign flipped. "
  "Any other number of components is refused when the problem is built.",
  ["inputs", "configurations"], "all component counts and data sets, with data in every component",
  "The tests use four components of data whose remaining components are zero.",
  [CAL], [("kF_data_vals and curves", CAL+":calibrate"), ("panels", CAL+":plot")], [], ["calibrate", "plot"])
p("C19", "Evaluating the model has no side effects and is pointwise",
  "Evaluating spectra, eddy lifetime or coherence never changes parameters or any later evaluation, and values at a wavenumber do not depend on which other wavenumbers are evaluated with it, nor on their order. "
  "Inputs are not modified, and previously returned results never change. "
  "The same holds with calibration, plotting and saving in between.",
  ["histories", "inputs"], "all interleavings of evaluations of different kinds on one model; all subsets and orders of the wavenumbers",
  "The tests evaluate once, on one domain.",
  [OPS, CAL], [("grids stored on the module, in-place scaling of the energy spectrum", OPS)], [("k, beta, E0, Phi", "scratch attributes", OPS)], ["eval", "EddyLifetime", "SpectralCoherence"])
p("C20", "One-point spectra are the documented double integrals",
  "For every k1 the model returns k1 times the trapezoidal double integral over the configured symmetric logarithmic k2, k3 grid of the six rapid-distortion tensor components, in the order 11, 22, 33, 13, 23, 12, with the energy spectrum sigma L^(5/3) (kL)^(-5/3) (kL/sqrt(1+(kL)^2))^(17/3), or with the learnable exponents p and q when selected. "
  "The 12 and 23 components enter with their positive part. The diagonal components are positive, and on resolved grids the 13 component is not positive. "
  "Spectra are proportional to the amplitude up to the smallest-value floor.",
  ["inputs", "configurations"], "all k1, all scales, all lifetime types, all integration grids",
  "The only stable test of the spectra compares generated data files.",
  [OPS, COM], [("forward, PowerSpectra, quad23", OPS)], [], ["eval", "OnePointSpectra.__call__"])
p("C21", "Eddy lifetimes are the documented functions",
  "The eddy lifetime is the time scale times: 1 (constant), (kL)^(-2/3) (two-thirds), (kL)^(-2/3)/sqrt(2F1(1/3,17/6;4/3;-(kL)^(-2))) (Mann), the log-log linear regression of that function over kL in 1e-3..1e3 (Mann approximation), or the network's a^(nu-2/3)/(1+a^2)^(nu/2) with a = |abs(kL) + NN(abs(kL))| (network). "
  "It is positive and finite for every non-zero wavevector, and does not depend on the sign of any wavevector component. "
  "With vanishing weights the network part vanishes, leaving a = abs(kL).",
  ["inputs", "configurations"], "all wavevectors, all five types, all scales and network weights",
  "The eddy-lifetime tests are not stable here and only check that a fit runs.",
  [OPS, COM, NNM], [("EddyLifetime", OPS), ("TauNet, Rational", NNM), ("MannEddyLifetime", COM)], [], ["EddyLifetime"])
p("C22", "Coherence is a coherence",
  "The modelled coherence of each component is between 0 and 1, exactly 1 at zero separation, even in the separation, and equals |S(r)|^2/|S(0)|^2 with S(r) the double integral of the tensor component times exp(i k2 r) over the configured coherence grid scaled by 1/L, L being the length scale of the physical parameters. "
  "Its shape is (3, separations, wavenumbers), in the order of the inputs. "
  "In a calibration, frequencies f are converted to wavenumbers factor*f/Uref, and frequencies at or below 1e-6 are given coherence 1.",
  ["inputs", "configurations"], "all wavenumbers, separations, scales, integration grids and frequencies",
  "No test evaluates the coherence.",
  [OPS, CAL], [("SpectralCoherence", OPS), ("_compute_model_coherence", CAL)], [], ["SpectralCoherence", "model coherence of a calibration"])
p("C23", "Coherence data land where their indices say",
  "Every row of a coherence file is placed by its separation and frequency indices, whatever the order of the rows and whether or not indices start at 0 or are contiguous; separations and frequencies are listed in index order, and points missing from the file are NaN. "
  "The four separations selected for fitting are the evenly spaced ones from first to last, each paired with its own data. "
  "Loading again replaces everything loaded before, and touches no other problem.",
  ["inputs", "histories"], "all row orders, index sets, missing rows; all sequences of loads",
  "No test loads a coherence file.",
  [CAL], [("load_coherence_data", CAL)], [("coherence_u, coherence_v, coherence_w", "loaded data", CAL)], ["load_coherence_data"])
p("C24", "Synthetic spectra follow the Kaimal and von Karman formulas",
  "Generated Kaimal data are ustar^2 times the IEC Kaimal expressions in n = k1*zref/(2 pi) for 11, 22, 33 and (negative) 13, and generated von Karman data are k1 times the isotropic formulas for 11, 22 and 33; all other entries are zero. "
  "The wavenumbers are returned unchanged and in order, values are pointwise in k1, and the input is not modified. "
  "22 and 33 of the von Karman data are equal.",
  ["inputs"], "all wavenumbers and parameters",
  "The test compares one parameter set with stored values.",
  [DG], [("generate_kaimal_spectra, generate_von_karman_spectra", DG)], [], ["generate_kaimal_spectra", "generate_von_karman_spectra"])
p("C25", "Exported fields read back as generated",
  "The VTK file written for a field contains the three velocity components of every point of the accumulated field in x-fastest order with the extents of the field and the spacing dimensions/(2^level+1), for string and path arguments. "
  "Exporting does not change the field, and later blocks generated are not affected. "
  "Exporting again after more blocks were generated writes the longer field.",
  ["histories", "configurations"], "all grids, numbers of blocks and interleavings of generation and export",
  "The tests never write a file.",
  [FG], [("save_to_vtk", FG)], [], ["save_to_vtk"])
p("C26", "Grid, layout and divergence helpers are exact",
  "The divergence helper returns the sum of the second-order central differences of each component along its own axis with that axis' spacing, exact for quadratic fields in the interior and linear fields everywhere, of the accumulated field by default; a spacing without three entries or a field without three components is refused. "
  "Grid creation gives index times spacing per axis, indexed (x, y, z). "
  "Formatting splits a field into its three components, contiguous and not sharing memory with it. The volume plots show each component, or the magnitude, at its own grid point.",
  ["inputs"], "all spacings, shapes and fields",
  "The tests do not call the helpers.",
  [FG, WP], [("evaluate_divergence", FG), ("create_grid, format_wind_field", WP)], [], ["evaluate_divergence", "create_grid", "format_wind_field"])
p("C27", "Inadmissible constructions are refused, admissible ones are not",
  "Building an object with inadmissible arguments raises: an unknown wind-field model, missing scales for VK or Mann, a missing parameter file for DRD, a number of components other than 3, 4 or 6, a non-positive physical scale, a network with a wrong number or non-positive size of layers or a wrong number or type of activations, a kernel in other than three dimensions, grid dimensions or levels that are not of length three. "
  "Every admissible combination builds, with the sizes requested: a network has exactly the requested layers and parameters, and reports their number; initial noise, when asked for, moves the other parameters by white noise of its magnitude and leaves the scales at those given. Whatever is left out takes its documented default value. "
  "Arguments are not modified, and objects built from the same argument objects do not influence each other.",
  ["inputs", "configurations"], "all combinations of arguments",
  "The tests cover one invalid model name.",
  [FG, CAL, NNM, CK, PAR, OPS], [("argument checks in the constructors", FG)], [], ["constructors"])

p("C28", "Pictures show the model as it is now and the data it is compared with",
  "plot() draws the six spectra of the model with its current parameters, divided by the squared friction velocity as the data are, against the data of the last calibration or those given; the eddy lifetimes along each direction and the reference if asked; and, if coherences are loaded, the coherences of the current model next to theirs, panel by panel. "
  "It writes exactly the files asked for, raises ValueError when there is nothing to compare with or nowhere to write, and changes neither parameters nor data. plot_losses(n) draws every logged term of the n-th run. A picture of a low-frequency field shows the field generated last, at its coordinates; without one, RuntimeError.",
  ["histories", "inputs", "configurations"], "all histories of calibration, assignment and plotting",
  "The tests draw one picture after one calibration and look at nothing in it.",
  [CAL, COM, LF], [("plot and its helpers", CAL+":plot"), ("drawing of the log", COM+":plot_loss_logs"), ("plot_velocity_fields", LF)], [], ["plot", "plot_losses", "plot_velocity_fields"])

p("C29", "The log of a run records every evaluation of the loss once",
  "Each evaluation of the loss adds to the TensorBoard log of its run, under the number of the evaluation, the value of the misfit and of every active term (and for coherence of each component) and nothing for inactive ones; from step 1 on also the shares of the terms in their running averages, which sum to one. "
  "A calibration logs its initial evaluation and every one the optimizer asks for. Each run has a log of its own in the directory given, and leaves earlier logs alone.",
  ["histories", "inputs", "configurations"], "all sequences of evaluations, weights and directories",
  "The tests never read a log.",
  [LOSS, CAL], [("add_scalar in each term", LOSS), ("log_component_ratios", LOSS), ("evaluations in closure()", CAL+":calibrate")], [], ["LossAggregator", "calibrate"])
p("C30", "The learning-rate schedules offered have the phases they are documented to have",
  "get_three_phase_scheduler doubles the rate of every parameter group for the first 30% of the epochs, lowers it linearly to the start value until 70%, then uses a tenth. "
  "get_adaptive_multi_scheduler keeps the rate until ten losses are remembered, halves it while the last five misfits of spectra and coherence differ more than tenfold on average, and otherwise decays it by 5% an epoch. Neither changes the problem or its history.",
  ["histories", "inputs"], "all numbers of epochs, rates and loss histories",
  "The tests do not use the schedules.",
  [CAL], [("get_three_phase_scheduler", CAL), ("get_adaptive_multi_scheduler", CAL)], [], ["get_three_phase_scheduler", "get_adaptive_multi_scheduler"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
