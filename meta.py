"""the properties and what is claimed about them; mkmeta.py writes properties.jsonl and MANIFEST.json"""
PROPS = []
DFT = "PyDynamic/uncertainty/propagate_DFT.py"
STD = ("Obligations: postconditions, run-time errors, frame (inputs not written) and non-vacuity of every path, for all "
       "array lengths and values; real arithmetic instead of floating point; numpy/scipy primitives by the axioms in vc/npmodel.py, "
       "validated on every run by executing the real function on random inputs and comparing with the same contract.")


def P(id, title, statement, over, qtext, why, files, mech, note=STD, na=None, level="proof", technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                      why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
                      _m=dict(note=note, na=na, level=level, technique=technique)))


P("C01", "GUM_DFT is the exact linear propagation through the real DFT",
  "For every time signal, every admissible uncertainty (noise variance, vector of variances, covariance matrix), zero padding, window, mask and reused sensitivities, GUM_DFT returns the stacked real and imaginary parts of the DFT of the (windowed, padded) signal and the covariance J Ux J^T of exactly that linear map. The result is symmetric, has the documented size, and does not depend on how the same covariance is given.",
  ["inputs", "configurations"], "all lengths (even and odd), signal values, uncertainties in the three forms, N >= len(x), windows, masks",
  "Tests compare a handful of shapes and one Monte Carlo run with loose tolerance; they never compare covariances entry by entry, nor windows, masks and padding together.",
  [DFT], [("GUM_DFT", DFT + ":GUM_DFT"), ("window", DFT + ":_apply_window"), ("block products", DFT + ":_prod")])
P("C02", "GUM_iDFT is the exact linear propagation through the inverse real DFT",
  "For every spectrum of even DFT length, covariance matrix or variance vector, output length and reused sensitivities, GUM_iDFT returns the inverse real DFT and the covariance J UF J^T of exactly that linear map, including both cross terms between real and imaginary parts. The returned covariance is symmetric.",
  ["inputs", "configurations"], "all even lengths N=2m, all spectra and covariances, all Nx <= N",
  "Tests only round-trip uncorrelated noise, where the cross terms vanish.",
  [DFT], [("GUM_iDFT", DFT + ":GUM_iDFT")])
P("C04", "Polar/Cartesian conversion of spectra propagates covariances exactly",
  "DFT2AmpPhase returns amplitude and phase of the spectrum and the covariance J UF J^T with the Jacobian of the polar map at every line, AmpPhase2DFT returns the spectrum and J UAP J^T with the Jacobian of the Cartesian map. This holds for every representation of the covariance (full, variances, stored by diagonals) and of the result (dense, sparse, concatenated), and arguments of inconsistent size are rejected.",
  ["inputs", "configurations"], "all numbers of lines, all spectra away from zero, all covariance representations and return forms",
  "Tests check shapes and one identity conversion; the covariance blocks are never compared with the Jacobian.",
  [DFT], [("DFT2AmpPhase", DFT + ":DFT2AmpPhase"), ("AmpPhase2DFT", DFT + ":AmpPhase2DFT"), ("_matprod", DFT + ":_matprod")])
P("C06", "Deconvolution in the frequency domain: X = Y/H with exact covariance",
  "DFT_deconv returns Y/H and the first-order covariance JY UY JY^T + JH UH JH^T of the complex quotient, for covariance matrices and variance vectors in either argument; DFT_transferfunction is the same operation with the roles exchanged. Arguments whose dimensions do not match are rejected.",
  ["inputs", "configurations"], "all numbers of lines, all spectra with H != 0, all combinations of covariance representations",
  "No test exercises DFT_deconv values or covariances.",
  [DFT], [("DFT_deconv", DFT + ":DFT_deconv"), ("DFT_transferfunction", DFT + ":DFT_transferfunction"), ("_matprod", DFT + ":_matprod")])
P("C07", "Product of frequency responses has the exact covariance",
  "DFT_multiply returns the complex product of two spectra and the covariance JF UY JF^T + JY UF JY^T, for uncertainty given as one variance, a variance vector or a covariance matrix and with the second factor exact or uncertain. The result is always the full symmetric matrix, and factors of different length are rejected.",
  ["inputs", "configurations"], "all numbers of lines, all spectra, all combinations of uncertainty representations",
  "No test exercises DFT_multiply's covariance.",
  [DFT], [("DFT_multiply", DFT + ":DFT_multiply"), ("_prod", DFT + ":_prod")])
FIL = "PyDynamic/uncertainty/propagate_filter.py"
CNV = "PyDynamic/uncertainty/propagate_convolution.py"
P("C05", "Amplitude/phase spectra in the time domain and back, with exact covariances",
  "AmpPhase2Time returns the inverse real DFT of the spectrum A exp(iP) and the covariance J UAP J^T of that map, including both amplitude-phase cross terms; Time2AmpPhase and Time2AmpPhase_multi return amplitude and phase of the DFT with the covariance of the composed maps, for every number of signals and every form of selector and uncertainty they accept.",
  ["inputs", "configurations"], "all numbers of lines and samples, all spectra and signals, all covariance representations",
  "Tests only compare shapes and a diagonal example; cross terms, sparse storage and several signals at once are not compared with anything.",
  [DFT], [("AmpPhase2Time", DFT + ":AmpPhase2Time"), ("Time2AmpPhase", DFT + ":Time2AmpPhase"), ("Time2AmpPhase_multi", DFT + ":Time2AmpPhase_multi")])
P("C08", "FIR filtering propagates signal and coefficient covariances exactly",
  "FIRuncFilter (with return_full_covariance) returns the filtered signal and the covariance theta^T Ux theta + x^T Utheta x + tr(Ux Utheta) of every pair of output samples, for noise given as a standard deviation, a vector of standard deviations, an autocovariance or a covariance matrix, for exact or uncertain coefficients, and with a preceding low-pass filter. The signal continues before its first sample with that sample and a stationary noise covariance; shift moves values and uncertainties together along all axes.",
  ["inputs", "configurations"], "all signal and filter lengths, all signals, coefficients and covariances, all integer shifts",
  "Tests compare with Monte Carlo at loose tolerance and a few lengths; start-up samples, autocovariances, low-pass stage and shifts are not checked against an oracle.",
  [FIL], [("FIRuncFilter", FIL + ":FIRuncFilter"), ("_fir_filter", FIL + ":_fir_filter"), ("_stationary_prepend_covariance", FIL + ":_stationary_prepend_covariance")])
P("C09", "Point-wise FIR uncertainties equal the diagonal of the full covariance",
  "Without return_full_covariance, FIRuncFilter returns the same filtered signal and, for every combination of noise description, coefficient uncertainty and shift, the square root of the diagonal of the covariance it would return with it; the fast path for uncorrelated noise (_fir_filter_diag) computes exactly that diagonal.",
  ["inputs", "configurations"], "all signal and filter lengths, values and uncertainty descriptions, both code paths",
  "Tests sample a few combinations and compare shapes; agreement of the two code paths must hold for all inputs.",
  [FIL], [("FIRuncFilter", FIL + ":FIRuncFilter"), ("_fir_filter_diag", FIL + ":_fir_filter_diag")])
P("C10", "convolve_unc is convolution with exact covariance in every mode",
  "In modes full, same and valid convolve_unc returns the discrete convolution of the two signals, symmetric in its arguments, in modes nearest, reflect and mirror the convolution of the first signal continued at its ends; the covariance is that of the convolution for all combinations of exact and uncertain arguments. Any other mode is rejected.",
  ["inputs", "configurations"], "all pairs of lengths (for reflect and mirror as long as one reflection suffices), all values and covariances",
  "Tests compare values with numpy for random lengths but covariances only by shape or a Monte Carlo run.",
  [CNV, FIL], [("convolve_unc", CNV + ":convolve_unc"), ("_fir_filter", FIL + ":_fir_filter")])
ITP = "PyDynamic/uncertainty/interpolate.py"
P("C11", "interp1d_unc: interpolated values and standard uncertainties for every kind and range handling",
  "For linear interpolation interp1d_unc returns the piecewise linear interpolant and the propagated standard uncertainty of independent samples at every requested time, together with the exact sensitivities if asked for; for previous, next and nearest it returns value and uncertainty of the selected sample. Times outside the range raise ValueError when bounds_error is True or by default, and otherwise give the stated fill values (constant, pair, or end values for extrapolation, also when only fill_value asks for it) to both values and uncertainties.",
  ["inputs", "configurations"], "all numbers of samples >= 2 and of requested times in any order, all ascending times (any order with assume_sorted=False), all values, uncertainties and fill values",
  "Property based tests sample short random series and check bounds of the results; the uncertainty formula and the sensitivities are compared with nothing.",
  [ITP], [("interp1d_unc", ITP + ":interp1d_unc")])
P("C12", "make_equidistant resamples on the regular grid without leaving the data",
  "make_equidistant returns the times min(t) + i dt for every i with that time below max(t), and the interpolated values and standard uncertainties of interp1d_unc at exactly these times, for every interpolation kind; it never asks for a time outside the data.",
  ["inputs", "configurations"], "all series of at least two ascending times, all dt > 0, all kinds (real arithmetic)",
  "Tests sample random series and check ordering and spacing, not that values and uncertainties belong to these times.",
  [ITP], [("make_equidistant", ITP + ":make_equidistant")])
NOI, SOS = "PyDynamic/misc/noise.py", "PyDynamic/misc/SecondOrderSystem.py"
P("C18", "Generated noise obeys its definition: ARMA recurrence, colours, requested mean and standard deviation",
  "ARMA(length, phi, theta, std) returns for every number of coefficients (none, one number or arrays) the sequence e with e[k] = sum_j phi[j] e[k-1-j] + sum_j theta[j] w[k-1-j] + w[k], where w is std times the standard normal draws and terms before the start are zero. white_gaussian is mean plus std times standard normal draws. power_law_noise has exactly the requested sample mean and sample standard deviation, for every colour. get_alpha gives the exponent of each named colour, a number unchanged, and refuses unknown names. The lag-0 autocovariance of power_law_acf is the variance.",
  ["inputs", "configurations"], "all lengths, all coefficients (any number of them), standard deviations and means, all draws",
  "Tests only check the lengths of the generated noise and one autocorrelation figure; the recurrence is checked by nothing.",
  [NOI], [("ARMA", NOI + ":ARMA"), ("power_law_noise", NOI + ":power_law_noise"), ("get_alpha", NOI + ":get_alpha")],
  note=STD + " The generators are replaced by stubs that return arbitrary numbers, recorded in the order of the draws: the statement holds for all draws, that they are normal is assumed of numpy.")
P("C22", "Second-order systems: response and coefficients of the same physical model",
  "sos_FreqResp returns S om0^2/(om0^2 + 2j d om0 om - om^2) at every frequency, for one system and for vectors of systems (one column each). sos_phys2filter returns the numerator S om0^2 and the denominator (1, 2 d om0, om0^2) of that very response. sos_realimag and sos_absphase return the mean of the responses of the Monte Carlo systems, whose parameters are mean plus uncertainty times draw, and the sample covariance (divided by runs - 1) of the stacked real and imaginary parts; sos_absphase the one of the amplitudes in its leading block.",
  ["inputs", "configurations"], "all parameters, all frequencies, all numbers of systems and of Monte Carlo runs >= 2, all draws",
  "Tests check shapes for a few parameters; the covariance is compared with nothing.",
  [SOS], [("sos_FreqResp", SOS + ":sos_FreqResp"), ("sos_phys2filter", SOS + ":sos_phys2filter"), ("sos_realimag", SOS + ":sos_realimag"), ("sos_absphase", SOS + ":sos_absphase")],
  note=STD + " The phase block of sos_absphase (unwrapped angles) is not covered.")
MCF, FST, TLS = "PyDynamic/uncertainty/propagate_MonteCarlo.py", "PyDynamic/misc/filterstuff.py", "PyDynamic/misc/tools.py"
P("C14", "MC returns mean and covariance of the outputs of the sampled stable filters",
  "For every signal, input uncertainty (one number, a vector of standard uncertainties, a covariance), coefficient covariance, number of runs, shift and optional low-pass (FIR or recursive), MC filters in each run the drawn input (low-pass first) with the filter whose coefficients are that run's draw from N((a[1:], b), Uab); filters with a pole outside the unit circle are left out; the mean and the sample covariance (divided by count - 1) of the remaining outputs, rolled by shift, are returned, or with return_samples all outputs with zero rows for the unstable filters. Any other form of Ux is refused. isstable is true exactly if no pole lies outside the unit circle (digital) or in the right half plane (analog), and refuses unknown types.",
  ["inputs", "configurations"], "all lengths, numbers of coefficients and runs, all draws, all covariances, all shifts",
  "Tests compare one Monte Carlo result with the GUM formula within loose tolerances; unstable draws, shift, low-pass and the covariance are hardly exercised.",
  [MCF, FST], [("MC", MCF + ":MC"), ("Normal_ZeroCorr", MCF + ":Normal_ZeroCorr"), ("isstable", FST + ":isstable")],
  note=STD + " Random generators are stubs returning arbitrary numbers, whose distribution parameters are checked; numpy.roots is uninterpreted; scipy.signal.lfilter is the difference equation.")
P("C21", "Shifting, trimming and polar-to-Cartesian tools treat value and uncertainty alike",
  "shift_uncertainty rolls values, vectors of uncertainties and both axes of a covariance by the same number of samples, for every integer shift, and refuses uncertainties of another type or dimension. trimOrPad returns the first values and continues with zeros (or the last value in edge mode). FreqResp2RealImag returns per frequency the means over the Monte Carlo runs of A cos(P) and A sin(P), and the sample covariance of the stacked real and imaginary parts, the draws coming from the normal distribution with the given mean and covariance (or variances); inconsistent lengths are refused.",
  ["inputs", "configurations"], "all lengths, shifts (also longer than the signal and negative), values, uncertainties, draws",
  "Tests check single shifts and shapes; the covariance of FreqResp2RealImag is compared with nothing.",
  [TLS], [("shift_uncertainty", TLS + ":shift_uncertainty"), ("trimOrPad", TLS + ":trimOrPad"), ("FreqResp2RealImag", TLS + ":FreqResp2RealImag")],
  note=STD + " Random generators are stubs returning arbitrary numbers, whose distribution parameters are checked.")
FIT = "PyDynamic/model_estimation/fit_filter.py"
P("C16", "Least-squares filter design solves the stated problem and propagates the uncertainty through it",
  "LSFIR returns the least-squares solution for fitting sum_k b_k exp(-j w k) to H exp(-j w tau), invLSFIR for fitting it to exp(-j w tau)/H, with real and imaginary parts stacked; weights (a vector, or a matrix applied from the left) act on the design matrix and on the fitted values alike. invLSFIR_unc returns the solution by (truncated) SVD for the weighted problem, for complex responses or stacked real and imaginary parts, and M U M^T, where M is the linear map of that solution and U the sample covariance of the 10000 reciprocals of draws from N(H, UH); weights of the wrong length are refused. invLSFIR_uncMC returns mean and sample covariance of the fits of 10000 draws. LSIIR and invLSIIR with justFit, and whenever the first fit is stable, return the solution of the normal equations of B - A H exp(-j w tau) (with 1/H for invLSIIR), with a[0] = 1, and the given delay. Otherwise the delay is repeatedly increased by the rounded-up median of the change of group delay when the poles are reflected into the unit circle; the filter returned is always the fit for the delay returned with it, and is unstable only if 50 fits did not suffice. invLSIIR_unc returns the mean numerator, the mean denominator (leading 1), the mean delay and the sample covariance of (a[1:], b) of the filters invLSIIR fits to 1000 draws of the response from N(H, UH).",
  ["inputs", "configurations"], "all numbers of frequencies and orders, all responses, delays, weights, covariances, draws",
  "Tests fit a few example systems and look at shapes or loose agreement; weights are never tested.",
  [FIT], [("LSFIR", FIT + ":LSFIR"), ("invLSFIR", FIT + ":invLSFIR"), ("invLSFIR_unc", FIT + ":invLSFIR_unc"), ("invLSFIR_uncMC", FIT + ":invLSFIR_uncMC"), ("_fitIIR", FIT + ":_fitIIR"), ("LSIIR", FIT + ":LSIIR"), ("invLSIIR", FIT + ":invLSIIR"), ("invLSIIR_unc", FIT + ":invLSIIR_unc")],
  note=STD + " numpy.linalg.lstsq, svd, roots and poly are uninterpreted (equal arguments give equal results). In the stabilising iteration mapinside and grpdelay are called through their contracts (proved in C20), in invLSIIR_unc invLSIIR is; that the iteration ends is not claimed.")
SIG = "PyDynamic/signals.py"
P("C17", "A Signal stays consistent: apply_filter leaves the result of the requested propagation in it",
  "A Signal keeps time, values and uncertainty as given (a number is the uncertainty of every sample, none means zero) and always has Ts and Fs with Ts Fs = 1: as given, from each other, or from an equidistant time axis; inconsistent arguments are rejected. After apply_filter with an FIR filter the values are the filtered values and the uncertainty is the standard uncertainty of the linear propagation (pointwise uncertainties are uncorrelated, coefficients exact or uncertain). With an IIR filter, a number of runs or a covariance of the values they are mean and covariance of the Monte Carlo outputs with that number of runs (10000 by default), coefficients drawn from N((a[1:], b), Uab), or exact ones. The time axis never changes.",
  ["inputs", "configurations", "histories"], "all lengths, values, uncertainties, filters, numbers of runs, draws",
  "Signal has no test of apply_filter with Monte Carlo or IIR filters, and none that compares uncertainties.",
  [SIG], [("Signal.__init__", SIG + ":Signal.__init__"), ("Signal.apply_filter", SIG + ":Signal.apply_filter"), ("FIRuncFilter", FIL + ":FIRuncFilter"), ("MC", MCF + ":MC")],
  note=STD + " The class is driven through drivers/pd_signals.py (construct, filter, read attributes). Random generators are stubs, numpy.roots is uninterpreted. Plotting is not covered.")
P("C15", "IIRuncFilter propagates coefficient and signal uncertainty exactly",
  "For every proper recursive filter (order p >= 1, a[0] = 1, numerator no longer than the denominator), every coefficient covariance Uab of (a[1:], b) and every noise standard deviation (a number or one per sample), IIRuncFilter returns the filtered signal and at each sample the standard uncertainty sqrt(J Uab J^T + sum_m g[n-m]^2 noise[m]^2), where J are the exact derivatives of the output with respect to a_1..a_p, b_0..b_nb and g is the impulse response of the filter. A numerator longer than the denominator is rejected with ValueError.",
  ["inputs", "histories"], "all signal lengths, filter orders, coefficients, covariances and noise levels; every sample of the recursion",
  "No test calls IIRuncFilter; the recursion accumulates over the whole signal history.",
  [FIL], [("IIRuncFilter", FIL + ":IIRuncFilter")],
  note=STD + " scipy.signal.tf2ss by its definition (controller canonical form). The loop invariants of the three state arrays are written in the contract and proved inductive on every run.")
FTR = "PyDynamic/model_estimation/fit_transfer.py"
P("C19", "fit_som is the generalised least-squares fit of the second-order model with linear propagation",
  "For complex responses given at N frequencies, fit_som returns the static gain, damping and resonance frequency that follow from the generalised least-squares fit of the reciprocal model to the reciprocal response (unweighted, weighted with the diagonal or with the full covariance of the reciprocal response), and the covariance of that fit, propagated with the exact derivatives of the three parameters; with Monte Carlo runs the fit and covariance are those of the sampled reciprocal responses. Uncertainty as vector or matrix are equivalent.",
  ["inputs", "configurations"], "all numbers of frequencies, all responses, covariances, weightings and scalings, all draws",
  "The tests call fit_som once with fixed data and compare nothing with the exact derivatives.",
  [FTR], [("fit_som", FTR + ":fit_som")],
  note=STD + " numpy.linalg.inv is uninterpreted (symmetric for symmetric matrices, elementwise reciprocal for diagonal ones), numpy.linalg.solve is that inverse times the right-hand side. A weighting given as an array is not covered.")

P("C20", "The filter helpers compute what they say: group delay, stabilisation, windowed low-pass, smoothing",
  "db and ua are 20 log10 of the modulus and the unwrapped angle. grpdelay returns, at nfft+1 frequencies from 0 to half the sampling rate, the exact group delay of B/A (negative derivative of the phase; minus the order of A where the transfer function vanishes). mapinside returns the monic polynomial whose roots are those of the argument, the ones outside the unit circle reflected. kaiser_lowpass designs an odd number of taps (one more for an even length) at the normalised cut-off and returns half the order as delay. savitzky_golay returns at every sample the derivative of the least-squares polynomial of the window, the signal reflected at both ends, and refuses even windows and windows too small for the order.",
  ["inputs", "configurations"], "all lengths, coefficients, cut-offs, window sizes and orders; derivatives 0, 1 and 2",
  "Tests check types, shapes and a few single values.",
  [FST], [("grpdelay", FST + ":grpdelay"), ("mapinside", FST + ":mapinside"), ("kaiser_lowpass", FST + ":kaiser_lowpass"), ("savitzky_golay", FST + ":savitzky_golay"), ("db", FST + ":db"), ("ua", FST + ":ua")],
  note=STD + " numpy.roots, poly, unwrap, linalg.pinv and scipy.signal.firwin are uninterpreted (equal arguments give equal results); grpdelay for nfft >= 2 and filters no longer than the transform.")
P("C13", "Block-wise Monte Carlo gives the mean, covariance, histograms and samples of all runs",
  "UMC_generic draws runs_init samples to lay out the histograms and then the requested number of runs in blocks, also when the last block is shorter. For every number of runs and every block size the returned mean and covariance are the sample mean and sample covariance of the results of all runs at once (zero covariance for a single run), every histogram holds for every component the number of all runs in each bin of the range seen by the initial runs, its outer bin edges are widened to cover every result, and with return_samples all samples and all results are returned in the order in which they were drawn. The evaluations of the initial runs do not enter mean, covariance and counts.",
  ["inputs", "configurations", "histories"], "all numbers of runs, block sizes (dividing the runs or not), initial runs, dimensions, numbers of bins and samples; a non-linear model (arctan of every component) evaluated in this process or in several",
  "The tests draw once with one block size; the incremental update of mean, covariance and histogram accumulates over a history of blocks, and the short last block and one-sample blocks are never compared with the one-shot result.",
  [MCF], [("UMC_generic", MCF + ":UMC_generic")],
  note=STD + " Proved with loop invariants of the block loop given in the contract and proved inductive on every run. multiprocessing.Pool.imap is trusted to give the results in the order of its arguments; samples are vectors of any length.")
TS = "PyDynamic/misc/testsignals.py"
P("C23", "Test signals have the shape and the noise they are asked for",
  "For every vector of time instants the test signals are sample by sample what their parameters say: shocklikeGaussian the derivative of a Gaussian scaled to the maximum m0, GaussianPulse the Gaussian of height m0 at t0, rect the height exactly where t0 < t <= t1, squarepulse numpulse pulses of equal width and equal gaps between the first and the last time instant, sine and multi_sine the (sum of) sines of the given amplitudes and angular arguments. A noise level adds independent normal noise of exactly that standard deviation, without it the signal is exact; noise of another length is rejected with ValueError.",
  ["inputs", "configurations"], "all numbers of time instants (real or integer), parameters, numbers of pulses and sines, noise levels and draws",
  "Tests look at the maximum of a few signals that start at time zero and at rounded standard deviations.",
  [TS], [(f, TS + ":" + f) for f in ("shocklikeGaussian", "GaussianPulse", "rect", "squarepulse", "sine", "multi_sine")],
  note=STD + " numpy.random.randn is a stub giving arbitrary draws. The argument freq of sine is used as a period, as the existing tests demand. corr_noise is not covered.")
P("C25", "make_semiposdef shifts the spectrum just as far as needed",
  "For every square (dense) matrix make_semiposdef returns its symmetric part if the smallest eigenvalue of that is at least the tolerance or if no iteration is allowed; otherwise it returns the symmetric part plus (|e| + tol) times the identity, e being that smallest eigenvalue, so that the smallest eigenvalue of the result is at least the tolerance and all eigenvectors are kept. Matrices that are not square are rejected with ValueError.",
  ["inputs", "configurations"], "all sizes, matrices, positive tolerances and numbers of iterations",
  "The tests only use the function to prepare covariances of their own; no result is checked.",
  [TLS], [("make_semiposdef", TLS + ":make_semiposdef")],
  note=STD + " numpy.linalg.eigvals is uninterpreted except that adding c times the identity adds c to every eigenvalue. In exact arithmetic: with rounding a result may fall short of the tolerance and be shifted once more. Sparse matrices (ARPACK) are not covered.")
DFF = "PyDynamic/deconvolution/fit_filter.py"
P("C26", "Deprecated names keep the guarantees of the functions they stand for",
  "Every deprecated name (deconvolution.fit_filter LSFIR, LSFIR_unc, LSFIR_uncMC, LSIIR, LSIIR_unc; identification LSFIR, LSIIR, fit_sos; uncertainty.interpolation.interp1d_unc; misc.tools.make_equidistant) accepts the arguments of the function it stands for, in the same order and with the same defaults, and returns what is guaranteed for that function (filter design for the reciprocal response, fit of the second-order model, interpolation, resampling).",
  ["inputs", "configurations"], "all inputs of the contracts of the functions that replace them",
  "Tests call two of the ten names, without comparing the results.",
  [DFF, "PyDynamic/identification/fit_filter.py", "PyDynamic/identification/fit_transfer.py", "PyDynamic/uncertainty/interpolation.py", "PyDynamic/misc/tools.py"],
  [("LSFIR", DFF + ":LSFIR"), ("LSFIR_unc", DFF + ":LSFIR_unc"), ("LSFIR_uncMC", DFF + ":LSFIR_uncMC"), ("LSIIR", DFF + ":LSIIR"), ("LSIIR_unc", DFF + ":LSIIR_unc"), ("fit_sos", "PyDynamic/identification/fit_transfer.py:fit_sos"), ("make_equidistant", "PyDynamic/misc/tools.py:make_equidistant")],
  note=STD + " The contracts of C11, C12, C16 and C19 are proved again from the deprecated entry point.")
