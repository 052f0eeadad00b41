"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",)):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=(m.split(':')[0] if ':' in m else m), where=m+' ('+', '.join(files)+')') for m in mech])))

prop("C01", "RM synthesis returns the weighted Faraday transform of the data",
 "For every spectrum or cube, every vector of Faraday depths (in any order, not necessarily symmetric about zero) and every non-negative channel weighting, the FDF returned at each pixel and depth phi is K * sum_k w_k (Q_k + iU_k) exp(-2i phi (lambda2_k - lambda2_0)) with K = 1/sum_k w_k. Channels whose Q or U is NaN, or whose weight is NaN, contribute to neither sum of that pixel, a pixel whose FDF is identically zero is NaN at every depth, and lambda2_0 is the caller's value or else the weighted mean lambda2 over the channels not flagged in every pixel. Arrays of mismatching shape are refused rather than synthesised.",
 "All 1-, 2- and 3-D Q/U arrays of any size, any pattern of NaN flags, any lambda2/phi/weight vectors, both precisions, with and without a caller-supplied lambda2_0.",
 "Universally quantified over array shapes, flag patterns, depth grids and weights; the tests run a handful of fixed spectra on symmetric depth grids, check mostly the exit status, and compare a few peak values.",
 ["RMutils/util_RM.py"], ["do_rmsynth_planes: NaN masking, weight zeroing of fully flagged planes, KArr, nufft1d3 call, all-zero-to-NaN map, reshape/squeeze"])

prop("C02", "The RMSF is the transform of the weights each pixel really used",
 "For every weighting, mask and depth axis, the RMSF returned for a pixel at Faraday depth phi is sum_k m_k w_k exp(-2i phi (lambda2_k - lambda2_0)) / sum_k m_k w_k over that pixel's unmasked channels, so it equals 1 at phi = 0 and never exceeds 1 in modulus, whether or not all pixels share the same mask. The RMSF axis continues the uniform input depth axis with unchanged spacing by half its length (rounded up) on each side, and the default main-lobe width is 3.8 / (max lambda2 - min lambda2).",
 "All masks (none, whole planes, isolated voxels), weights, depth axes of any length, 1-D to 3-D, both precisions.",
 "The per-pixel branch for isolated flags and the replicated branch must agree for every mask; tests reach the replicated branch with symmetric grids only.",
 ["RMutils/util_RM.py"], ["get_rmsf_planes: phi2 padding via extrap, weight masking, direct-sum branch and NUFFT branch, fwhm, squeeze/reshape", "extrap"])

prop("C03", "RM-CLEAN conserves the dirty spectrum: residual plus components",
 "At every pixel and after any number of iterations, with or without the windowed second pass, the dirty FDF equals the residual FDF plus the sum of the returned clean components each convolved with that pixel's RMSF centred on its peak. The CLEANed FDF equals the residual plus each component times a unit-peak Gaussian whose FWHM is that pixel's RMSF width, centred on the component's Faraday depth.",
 "All dirty FDFs, RMSFs, gains, cutoffs, windows, iteration limits, cube shapes; every iteration of both CLEAN loops.",
 "A loop invariant over an unbounded number of data-dependent iterations; the tests compare a few clean-component statistics of one simulated spectrum.",
 ["RMutils/util_RM.py"], ["RMcleaner._cleanloop: both minor-cycle loops", "do_rmclean_hogbom: scatter of per-pixel results, addition of residual", "gauss1D"], over=("inputs", "histories"))

prop("C04", "RM-CLEAN stops only at its threshold or limit and stays in its window",
 "Each minor cycle subtracts exactly gain times the residual at the channel of largest residual modulus; the first pass ends only when no residual reaches the cutoff or the iteration limit is reached, and total iterations over both passes never exceed the limit. The second pass adds components only within half an RMSF width (whole channels, clipped to the axis) of a channel holding a first-pass component and ends only when no residual there reaches the window threshold, no channel is in the window, or the limit is reached. A pixel whose dirty FDF never reaches the cutoff is returned unchanged with no components and zero iterations, and each pixel's iteration count is the number of cycles performed on it.",
 "All dirty FDFs, RMSFs, cutoffs, windows, gains, limits, pixel masks; every history of the two loops.",
 "Quantifies over all loop histories, including components close to either end of the depth axis; tests run one mid-axis component.",
 ["RMutils/util_RM.py"], ["RMcleaner._cleanloop: loop guards, argmax choice, window mask", "do_rmclean_hogbom: cutoff mask, pixel list"], over=("inputs", "histories"))

prop("C05", "The Faraday depth grid is uniform, centred on zero and covers the range",
 "For every frequency list and every requested maximum depth, sampling or samples-per-RMSF, the 1D and 3D synthesis tools use an odd number of equally spaced depths, symmetric about an exact zero in the middle channel, with spacing equal to the requested spacing (default: RMSF width / samples) and reaching the requested maximum to within half a spacing. The default maximum is the larger of sqrt(3) / (largest lambda2 channel step) and ten RMSF widths, where the RMSF width is 3.8 / (lambda2 range), or 2 / (lambda2 max + lambda2 min) in super-resolution mode.",
 "All frequency lists and all combinations of user-supplied and defaulted maximum, spacing and samples.",
 "A relation over all real-valued inputs; tests use two or three fixed settings and never inspect the grid.",
 ["RMtools_1D/do_RMsynth_1D.py", "RMtools_3D/do_RMsynth_3D.py"], ["run_rmsynth (1D): nChanRM, startPhi, stopPhi, linspace", "run_rmsynth (3D): same"], over=("inputs", "configurations"))

prop("C06", "The 1D pipeline applies one weighting, mask and flux scale throughout",
 "For every input spectrum the 1D tool synthesises the fractional spectra with the same channel weights (inverse variance or uniform), the same usable channels and the same reference lambda2 in both FDF and RMSF, and returns the FDF multiplied by the Stokes I model evaluated at the reported reference frequency c / sqrt(lambda2_0). The reported theoretical noise is |I0| sqrt(sum w^2 s^2) / sum w over the channels used, and the reported channel count and frequency limits are those of channels with non-zero weight and finite data.",
 "All 7- and 5-column inputs, weightings, NaN patterns, Stokes I sources, super-resolution on or off.",
 "Quantifies over every flag pattern and configuration; the tests use complete, unflagged spectra.",
 ["RMtools_1D/do_RMsynth_1D.py"], ["run_rmsynth: weightArr, mskArr passed to get_rmsf_planes, Ifreq0 scaling, dFDFth, good_channels"], over=("inputs", "configurations"))

prop("C07", "Peak measurement reports the parabola vertex, angles and errors correctly",
 "For every FDF, the peak Faraday depth and amplitude are the vertex of the parabola through the brightest non-edge channel and its two neighbours (NaN if the vertex lies outside the sampled range), and its error is RMSF width * noise / (2 * amplitude). Above the bias threshold the effective amplitude is sqrt(A^2 - 2.3 noise^2), otherwise A. The observed angle is half the phase of the FDF interpolated at the vertex, the intrinsic angle is that angle minus phi*lambda2_0, both reported in [0,180) degrees, with the Brentjens & de Bruyn A.12 and A.20 errors.",
 "All complex FDFs, uniform depth axes, noise values and channel lists.",
 "Real-valued identities over all spectra; tests compare four numbers for one simulated source to 1e-3.",
 ["RMutils/util_RM.py", "RMutils/util_misc.py"], ["measure_FDF_parms", "calc_parabola_vertex", "MAD"])

prop("C08", "Fractional spectra divide Q, U and their errors by the Stokes I model",
 "For every channel the fractional spectra are q = Q/I and u = U/I with errors dQ/I and dU/I, where I is the fitted (or supplied) Stokes I model at that channel, and any quotient that is not finite is NaN. If the Stokes I fit fails or is refused by the fitter, a unity model is used and flagged; a model that is negative anywhere, or below its own noise anywhere, is flagged with the 128 or 64 status respectively.",
 "All spectra, models (fitted, supplied or failed), orders and fit functions.",
 "Universally quantified over spectra and fit outcomes; no test covers failed fits, supplied models or the flags.",
 ["RMutils/util_misc.py"], ["create_frac_spectra", "calculate_StokesI_model"])

prop("C09", "Re-referencing a Stokes I model leaves the model spectrum unchanged",
 "For every fitted Stokes I model (linear polynomial or log polynomial, up to fifth order) and every new positive reference frequency, the re-referenced model takes the same value as the original at every frequency and carries the new reference frequency. The re-referenced parameter errors are the first-order propagation of the original covariance through the change of parameters; status, order and chi-squared are kept.",
 "All parameter vectors, covariance matrices, orders 0-5, both model families, all positive frequencies.",
 "A polynomial identity over all parameters and frequencies; no existing test evaluates it.",
 ["RMutils/util_misc.py"], ["renormalize_StokesI_model", "calculate_StokesI_model", "poly5", "powerlaw_poly5"])

prop("C10", "Automatic Stokes I order selection stops at the first AIC minimum",
 "With a negative requested order -n, the fitter starts from order zero and raises the order one at a time, keeping a higher order only while it lowers the Akaike criterion 2(order+1) + chi-squared, never exceeding order n (at most five); a higher-order fit that the fitter refuses is never kept; the returned model, status, chi-squared and criterion all belong to the kept order, with degrees of freedom = unflagged channels - order - 1. With an order from zero to five exactly that order is fitted. Only unflagged channels enter the fit, weighted by their Stokes I errors.",
 "All spectra and all sequences of fit outcomes and AIC values.",
 "Quantifies over all sequences of fit results; tests only run well-behaved spectra.",
 ["RMutils/util_misc.py"], ["fit_StokesI_model", "fit_spec_poly5"], over=("inputs", "configurations"))

prop("C11", "Splitting a cube into chunks and reassembling it is lossless",
 "For every 2- to 4-D image or cube and every positive chunk size n, each chunk file holds exactly the consecutive pixels [i*n, min((i+1)*n, N)) of the image plane taken column by column (x slowest), for every other axis, and the chunks together cover each pixel exactly once, in the order of their sorted file names. Reassembling chunks (unprocessed, or processed along the spectral axis) with the original map size puts every pixel's spectrum back at its original row and column.",
 "All map sizes, axis counts and chunk sizes, including a chunk at least as large as the map and a non-dividing last chunk.",
 "Index identity for every size pair; the test checks one 12-pixel-chunk case.",
 ["RMtools_3D/create_chunks.py", "RMtools_3D/assemble_chunks.py"], ["create_chunks main: num_chunks, pixel index to (x, y), header OLDXDIM/OLDYDIM, file numbering", "assemble_chunks main: NAXIS update, pixel index to (x, y), scatter"], over=("inputs", "configurations"))

prop("C12", "Region extraction keeps exactly the requested box and its sky coordinates",
 "For every cube and every requested box, the output image holds exactly the input pixels from the lower to the upper corner inclusive on both image axes, in order, for every other axis. Its reference pixel is shifted so every kept pixel keeps its world coordinates, and an upper bound of -1 means to the end of the axis.",
 "All boxes, image sizes, 2- to 4-D cubes, and the -1 convention.",
 "Index identity over all boxes and dimensionalities; there is no test for this tool.",
 ["RMtools_3D/extract_region.py"], ["main/cut-out: box slicing, CRPIX update"], over=("inputs", "configurations"))

prop("C13", "FITS cubes written by 3D synthesis describe the depth axis and pixels truly",
 "For every synthesis result, the Faraday-depth axis computed from the header of a written FDF or RMSF cube equals the depth array used, channel by channel, and the axis type and unit mark it as Faraday depth. Each written voxel is the result for that pixel and depth placed on the same axes as the input cube, in the Q (real), U (imaginary) and total (modulus) planes or files, so that reading the cubes back for RM-CLEAN recovers the complex FDF, RMSF and depth array.",
 "All depth grids, image sizes, and input frequency-axis positions (third or fourth axis).",
 "Round-trip over all header layouts and grids; tests check that files exist.",
 ["RMtools_3D/do_RMsynth_3D.py", "RMtools_3D/do_RMclean_3D.py", "RMutils/util_RM.py"], ["writefits", "find_freq_axis", "read_FDF_cubes/find_axes", "fits_make_lin_axis"], over=("inputs", "configurations"))

prop("C14", "QU-fitting models implement their published formulas",
 "For every parameter set and every lambda2, each QU-fitting model returns the complex fractional polarisation of its documented formula: Faraday-thin, Burn external and internal dispersion, foreground-screen gradient and slab depolarisation, and sums of these, one value per channel, without modifying the parameters or the lambda2 array.",
 "All real parameters and lambda2 >= 0 for all shipped models; for the slab models (m5, m6, m7, m12), whose formula is 0/0 there, lambda2 > 0 and non-zero Faraday depth range.",
 "Identities over all real parameters; the only QU-fit test never evaluates a model.",
 ["RMtools_1D/models_ns"], ["model() in m1, m2, m3, m4, m5, m6, m7, m11, m12, m111"])

prop("C15", "QU-fit likelihood and chi-squared are those of independent Gaussian noise",
 "For every model, spectrum and error vector, the fit log-likelihood equals minus half the sum over channels of the error-normalised squared Q and U residuals plus a term that does not depend on the parameters. Channels in which q, u or an error is not finite are excluded. The reported chi-squared equals that sum at the reported parameters. With k free parameters, N = 2 x unflagged channels and lnL the largest likelihood sampled, the reported reduced chi-squared is chi-squared/(N-k-1), AIC = 2k - 2 lnL, AICc = AIC + 2k(k+1)/(N-k-1) and BIC = k ln N - 2 lnL.",
 "All spectra, error vectors and parameter values.",
 "Quantifies over all parameter values; no test reaches the likelihood.",
 ["RMtools_1D/do_QUfit_1D_mnest.py"], ["lnlike_call/log-likelihood class", "chisq_model", "run_qufit statistics"])

prop("C16", "Bandwidth-depolarisation synthesis is the adjoint of its forward operator",
 "For every channel layout, depth and weighting, the forward operator applied to a unit source at depth phi is exp(2i phi lambda^2) averaged over each channel's frequency width, so it tends to ordinary Faraday rotation as the width goes to zero, and the adjoint synthesis returns at each depth K exp(2i phi lambda2_0) times the weighted sum of the data times the conjugate of that operator, with K = 1/sum w per pixel and lambda2_0 the weighted mean lambda2. Sensitivity and noise are sum w|r|^2 / sum w and sqrt(sum (w s |r|)^2) / sum w. The tool applies one weighting and one channel mask (flagged q, u or weight) to the spectrum, the RMSF and the statistics with the channel widths of the input, scales the FDF by the Stokes I model at the reference frequency over the sensitivity, and its RMSF is the synthesis of a unit source at the depth of highest signal to noise, on the depth axis returned with it.",
 "All channel centres, widths (given per channel or uniform), depths, weights and NaN patterns; all four input column layouts.",
 "Identity over all channel layouts; the tests check only the exit status of one run.",
 ["RMtools_1D/rmtools_bwdepol.py"], ["rotation_integral_limit, rotation_operator, analytical_chan_pol, bwdepol_simulation", "adjoint_theory", "do_adjoint_rmsynth_planes", "bwdepol_get_rmsf_planes", "run_adjoint_rmsynth: columns, mask, weights, flux scale"])

prop("C17", "3D peak fitting puts each pixel's 1D peak measurement at that pixel",
 "For every FDF cube, the peak-fit maps hold at each image position the values measured on the spectrum of that same position with that position's noise and reference values, independent of every other pixel. Positions that are entirely NaN or that cannot be fitted are NaN in every map, and every map has the image shape of the cube.",
 "All cubes, noise maps or scalars, masks.",
 "Index and independence property over all cubes; the test only checks the exit status.",
 ["RMtools_3D/RMpeakfit_3D.py"], ["pixelwise_peak_fitting"])

prop("C18", "3D Stokes I model rescaling re-references every pixel consistently",
 "For every pixel, the rescaled Stokes I model cube coefficients describe, with the new reference frequency, the same Stokes I spectrum as the input coefficients with the old one, using the speed of light throughout and each pixel's own old and new reference values. Errors are propagated from that pixel's covariance, and pixels with no model stay NaN.",
 "All coefficient maps, covariance maps and reference-frequency maps.",
 "Identity over all parameter maps; there is no test of the values.",
 ["RMtools_3D/rescale_I_model_3D.py", "RMutils/util_misc.py"], ["rescale_I_pixel / rescale_I_model_3D", "renormalize_StokesI_model"])

prop("C19", "Clean components predict the spectrum they were extracted from",
 "For every set of clean components, Stokes I model and channel list, the predicted polarisation at each channel is the Stokes I model at that channel (the log model of the given parameters about the frequency c/sqrt(lambda2_0), or 1 without parameters) times the sum over components of its complex amplitude times exp(2i phi (lambda2 - lambda2_0)), i.e. the exact inverse-sign kernel of synthesis with the same lambda2_0. A single component of amplitude A at depth phi gives a spectrum whose synthesis at phi is A times the weighted mean of the Stokes I model. The command line applies this to its input files and writes frequency, I, Q and U per channel.",
 "All component lists, depths, frequencies and reference values.",
 "Sign/scale identity over all inputs; the test checks that a file exists.",
 ["RMtools_1D/clean_model.py"], ["calculate_QU_model"])

prop("C20", "Simulated polarised spectra follow their stated physics",
 "For every set of source parameters, generated Stokes spectra have Stokes I following the requested power law about the reference frequency (first channel by default) and Q + iU equal to I times the sum over components of p exp(2i(psi + phi lambda2)), times exp(-2 sigma^2 lambda4) where Burn depolarisation is requested, or times the slab factor for mixed (differentially rotating) components. Generation never depends on how many components or channels are requested other than through that sum.",
 "All component lists, frequency lists and parameters.",
 "Closed-form identity over all parameters; no test evaluates it off the default.",
 ["RMutils/util_misc.py"], ["create_IQU_spectra_burn, create_pqu_spectra_burn, create_IQU_spectra_RMthin, create_pqu_spectra_RMthin, create_IQU_spectra_diff, create_pqu_spectra_diff"])

prop("C21", "Sigma-relative CLEAN thresholds scale by the spectrum's theoretical noise",
 "For every 1D CLEAN run, a positive cutoff or window threshold is used as given and a negative one is replaced by its modulus times the theoretical FDF noise; without a window threshold the windowed second pass never runs. The reported clean-component statistics are computed from the returned components, FDF and depth axis, and the reported noise and threshold are those used.",
 "All cutoffs, window thresholds and noise values.",
 "Quantifies over all thresholds and signs; tests use one negative cutoff.",
 ["RMtools_1D/do_RMclean_1D.py"], ["run_rmclean"], over=("inputs", "configurations"))

prop("C22", "The 3D pipeline treats every pixel like the 1D pipeline would",
 "For every Q/U cube, optional Stokes I cube and noise vector, the 3D tool synthesises with weights 1/noise^2 (uniform without a noise file), divides Q and U by each pixel's Stokes I where supplied and rescales each pixel's FDF by its Stokes I interpolated to the reference frequency c/sqrt(lambda2_0). FDF and RMSF use the same weights, reference lambda2 and flags.",
 "All cubes, noise vectors, Stokes I cubes and flags.",
 "Quantifies over pixels, flags and Stokes I cubes; the tests check the exit status or file existence.",
 ["RMtools_3D/do_RMsynth_3D.py", "RMutils/util_misc.py"], ["run_rmsynth (3D)", "interp_images"], over=("inputs", "configurations"))

prop("C23", "Additional-scatter estimates come from a proper posterior",
 "For every data vector with errors, the additional-scatter estimate is the median of the posterior on the grid of trial scatters (equally spaced from 1/nSamp of the data range, errors included, up to that range) proportional to 1/scatter times the likelihood of independent Gaussians of variance error^2 + scatter^2 about the given mean, over the unflagged data only; its lower and upper errors are the distances to the 15.72 and 84.27 percentiles. A percentile is the first trial value if the normalised cumulative posterior exceeds it from the start, and otherwise the linear interpolation between the last trial value at or below it and the first above it.",
 "All data and error vectors.",
 "Identity over all inputs; tests compare one value.",
 ["RMutils/util_RM.py"], ["calc_sigma_add", "cdf_percentile"])

prop("C24", "Multi-process runs give the same results as serial runs",
 "For every cube and every number of worker processes and chunk size, parallel RM-CLEAN, peak fitting and Stokes I fitting return the same maps as the serial run.",
 "All schedules of worker processes and all pool sizes.",
 "Schedules are not enumerable by tests; the tests run the serial path.",
 ["RMutils/util_RM.py", "RMtools_3D/do_fitIcube.py", "RMtools_3D/RMpeakfit_3D.py"], ["pool.imap use"], over=("schedules",))

prop("C25", "Nested-sampling QU fits converge to the posterior of the model",
 "For every spectrum, model and prior, the reported best-fit parameters and errors are the posterior medians and credible intervals of the chosen model, to the sampler's stated tolerance.",
 "All spectra, models, priors and random seeds of the sampler.",
 "Statistical convergence of an external stochastic sampler.",
 ["RMtools_1D/do_QUfit_1D_mnest.py"], ["run_qufit: bilby.run_sampler and posterior summary"], over=("inputs", "histories"))

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
