#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that the
long lines stay reviewable)."""
import json, os
AT = "allantools/allantools.py"; CI = "allantools/ci.py"; DS = "allantools/dataset.py"
MK = "allantools/mask.py"; NZ = "allantools/noise.py"; NK = "allantools/noise_kasdin.py"
RT = "allantools/realtime.py"; PL = "allantools/plot.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or []}})

prop("C01", "Library calls never modify the caller's data",
 "No allantools function, class constructor or method modifies an array, list or dict that the caller passed to it (data, taus, header parameters, averaging-factor lists, datasets handed to the plotter), nor do later analyses modify the arrays an earlier deviation computation returned (the streaming estimators' devs() is documented live state). A caller can therefore reuse the same arrays for any number of analyses.",
 ["inputs", "histories"], "every public function and method, every argument, whatever its type (list or ndarray) and whatever was called before",
 "Tests compare outputs with stored results; almost none looks at its inputs after the call, and aliasing shows only for particular container types (np.asarray of an ndarray aliases, of a list copies).",
 [AT, CI, DS, NZ, NK, RT, PL],
 [("np.array(data) copy in the tau grid generator", AT + ":tau_generator"), ("augmented assignments only on fresh locals", AT), ("noise-ID works on detrended/differenced copies", CI + ":autocorr_noise_id"), ("header_params only iterated", DS + ":write_results")])

prop("C02", "Results depend only on the arguments: no hidden state",
 "Except for the documented random-noise generators, every allantools function returns a value determined by its arguments alone: no call history, module-level variable, mutable default argument, cache, random number, clock or environment influences a result. Separate instances of the library's classes never share mutable state.",
 ["histories", "inputs"], "every sequence of calls in one process, every pair of objects",
 "Each test makes its call in a fresh state and checks one result; history dependence needs specific sequences of calls.",
 [AT, CI, DS, MK, NK, RT], [("tables are local literals", CI), ("per-instance lists and arrays", RT + ":__init__"), ("fresh inp/out dicts per Dataset", DS + ":__init__"), ("immutable module constants", CI)])

prop("C03", "Noise generation is reproducible under numpy's seed",
 "Every random value used by the noise generators comes from numpy's global random stream, so that seeding it reproduces the same series; no generator reads another entropy source or keeps random state between calls. timmer_koenig_from_psd with a seed (any seed, including 0) seeds that stream before its first draw, and without one never reseeds it.",
 ["histories", "inputs"], "all generators, all call sequences, all seeds",
 "Tests check spectra statistically; they never compare two runs of one seed nor interleave generators.",
 [NZ, NK], [("np.random.* draws", NZ), ("np.random.seed(int(seed)) guarded by `seed is not None`", NZ + ":timmer_koenig_from_psd"), ("np.random.normal", NK + ":generateNoise")])

prop("C04", "Deviations scale linearly with the amplitude of the data",
 "For every data set and every factor c>0, multiplying the phase (or frequency) data by c multiplies the reported deviations and error bars of every estimator by exactly c, and leaves the averaging times and the counts n unchanged. Likewise for the three-cornered hat, the phase/frequency conversions and the streaming estimators; dimensionless statistics (noise identification, B1 and R(n) ratios) do not change at all.",
 ["inputs"], "all data, all rates, all averaging times, both data types",
 "Tests compare a few stored data sets at one amplitude with stored values; an absolute threshold or epsilon that breaks scaling is invisible at that amplitude.",
 [AT, CI, RT], [("differences of phase, squared and square-rooted", AT), ("streaming sums", RT), ("ratios of variances", CI + ":b1,rn,lag1_acf")])

prop("C05", "Results are covariant under a change of time unit",
 "If time is measured in another unit (phase data and requested averaging times multiplied by c, sampling rate divided by c; fractional-frequency data unchanged), frequency-type deviations (ADEV, MDEV, HDEV, PDEV, total and Theo1 families) are unchanged, time-type deviations (TDEV, TTOTDEV, TIErms, MTIE) are multiplied by c, averaging times are multiplied by c and counts are unchanged. The same holds for the streaming estimators' sampling interval and for the noise-model formulas that take a sampling interval, and the noise-type ratios R(n) and B1 do not depend on the time unit.",
 ["inputs", "configurations"], "all sampling rates, all data, all averaging times",
 "Nearly every test runs at rate=1, where a missing, doubled or inverted factor of the rate is invisible.",
 [AT, CI, RT, NK, NZ], [("division by m and multiplication by rate", AT + ":calc_adev_phase"), ("tau0 = 1/rate", AT), ("tau0 in streaming normalisation", RT), ("taus passed to the batch estimators", CI + ":rn,b1"), ("powers of tau0", NK)])

prop("C06", "Difference-type deviations equal their defining formulas",
 "For every phase record without gaps and every reported averaging factor m, ADEV, OADEV, HDEV, OHDEV, MDEV, TDEV, PDEV, GCODEV and GRADEV equal their published definitions: the stated second or third difference at lag m, over all admissible starting points (stride m for the non-overlapping forms, stride 1 otherwise), with the published normalisation. The reported count n is exactly the number of averaged terms.",
 ["inputs"], "all record lengths, all averaging factors (odd, even, 1), all rates, all data values",
 "Tests compare a handful of records at rate 1 with stored results, some with loose tolerance (gradev) or without checking the comparison's outcome (gcodev).",
 [AT], [("second differences", AT + ":calc_adev_phase"), ("third differences", AT + ":calc_hdev_phase"), ("moving sums", AT + ":mdev"), ("parabolic weights", AT + ":calc_pdev_phase"), ("cross product", AT + ":calc_gcodev_phase"), ("NaN-aware sum", AT + ":calc_gradev_phase")])

prop("C07", "Total-type deviations and Theo1 equal their defining formulas",
 "For every phase record and every reported averaging factor m, TOTDEV, MTOTDEV, TTOTDEV, HTOTDEV and THEO1 equal their published definitions: the record (or each 3m-point segment, detrended by its half-averages) is extended by reflection exactly as defined, the published differences are averaged over all terms of the extended data, and normalised as published. The reported count n is the documented one (N-2 for TOTDEV, N-3m+1 for the modified and Hadamard total forms, (N-m)m/2 for THEO1).",
 ["inputs"], "all record lengths, all averaging factors of both parities, all rates, all data values",
 "Tests compare a few records at rate 1 with stored results; the odd/even segment branches and the reflection end points affect only some samples.",
 [AT], [("reflection at both ends", AT + ":totdev"), ("segment detrend, reflect and moving sums", AT + ":calc_mtotdev_phase"), ("frequency variant", AT + ":calc_htotdev_freq"), ("double sum", AT + ":theo1")])

prop("C08", "MTIE and TIErms equal their defining formulas",
 "For every phase record, MTIE at averaging factor m is the largest peak-to-peak excursion over all windows of m+1 consecutive samples, and TIErms is the root-mean-square of all N-m time-interval errors x[i+m]-x[i]; the count reported is N-m.",
 ["inputs"], "all record lengths, averaging factors and data values",
 "Tests cover a few stored records; a missed last window or an off-by-one window only changes the result when the extreme sits there.",
 [AT], [("rolling window", AT + ":mtie_rolling_window"), ("window extremes", AT + ":mtie"), ("pairwise extremes", AT + ":tierms")])

prop("C09", "The averaging-time grid is valid for every request",
 "Whatever averaging times are requested (None, empty list, list, array, 'all', 'octave', 'decade', 'log10') and whatever the rate, the averaging factors used are the requested times multiplied by the rate rounded to the nearest integer, strictly increasing, at least 1, smaller than the record length, at most the estimator's maximum (a third of the record for the modified and Hadamard total forms), and even for THEO1; a request is dropped only when it violates one of these bounds. The reported averaging times are those factors divided by the rate, and the keyword grids contain exactly m = all integers, powers of two, or 1-2-4 per decade.",
 ["inputs", "configurations"], "all requests, rates and record lengths",
 "Tests call with a few fixed lists and keywords at rate 1; boundary cases (m equal to the record length, ties, unsorted or duplicate requests, non-integer m) are not covered.",
 [AT], [("rounding, masks, unique", AT + ":tau_generator"), ("maximum_m", AT + ":mtotdev,htotdev"), ("even", AT + ":theo1"), ("tau = m/rate", AT + ":tau_generator")])

prop("C10", "The four result arrays are aligned rows with n greater than 1",
 "Every deviation function returns averaging times, deviations, errors and counts as arrays of equal length in which row i of each refers to the same averaging time; rows with n<=1 are left out of all four, every other computed row is kept, and an empty result raises instead of being returned.",
 ["inputs"], "all deviation functions and all inputs",
 "Tests look at the rows they know; misalignment appears only when some row is filtered out.",
 [AT], [("one mask applied to all arrays", AT + ":remove_small_ns"), ("element stores at the same index", AT)])

prop("C11", "Each averaging time is evaluated independently of the others",
 "The deviation, error and count reported for an averaging time depend only on the data, the rate and that averaging time: not on which other averaging times were requested, on their order, or on how many there are.",
 ["inputs", "histories"], "all sets of requested averaging times",
 "Tests compare whole curves on one grid with stored curves of the same grid; they never compare two grids.",
 [AT, RT], [("per-tau loop bodies without carried state", AT), ("element-wise stores", AT), ("per-AF sums", RT)])

prop("C12", "Error bars are the deviation over the square root of the count",
 "For ADEV, OADEV, MDEV, TDEV, PDEV, HDEV, OHDEV, TOTDEV, MTOTDEV, TTOTDEV, HTOTDEV, MTIE and GCODEV the reported error equals the reported deviation divided by the square root of the reported n, for every row; THEO1 uses the N-m starting points instead. TDEV and TTOTDEV equal tau/sqrt(3) times MDEV and MTOTDEV at the same averaging times with the same counts.",
 ["inputs"], "all functions, inputs and rows",
 "Most tests compare only tau, deviation and n with stored values, so the error column is unchecked.",
 [AT], [("dev/sqrt(n)", AT), ("scaling of mdev and mtotdev", AT + ":tdev,ttotdev")])

prop("C13", "Streaming estimators equal the batch estimators",
 "After any number of samples has been fed to oadev_realtime, ohdev_realtime or tdev_realtime (sample by sample, as phase or as fractional frequency, for any averaging factors and any sampling interval), the deviation held for each averaging factor equals the batch OADEV, OHDEV or TDEV of all samples fed so far as soon as one term is available, and is zero before. The MDEV and averaging times derived from the object agree likewise.",
 ["histories", "inputs"], "all sample sequences, lengths, averaging factors and sampling intervals, at every point of the stream",
 "Tests feed one record at tau0=1 and compare the final value; intermediate points, other tau0 and the frequency feed are unchecked.",
 [RT], [("running sums", RT + ":update_S,update_S3n"), ("normalisation", RT + ":update_dev"), ("frequency integration", RT + ":add_frequency"), ("taus", RT + ":taus")])

prop("C14", "Automatic averaging factors are complete and in lockstep",
 "In streaming mode with automatic averaging factors, at every point of the stream the averaging-factor, deviation and running-sum arrays have the same length, and an averaging factor is put in service no later than the first sample that contributes to it, so that its value equals the batch value from then on. Construction arguments do not change this.",
 ["histories"], "all stream lengths, points per decade and constructor arguments",
 "The auto-AF tests only run the code and assert nothing about its values.",
 [RT], [("AF registration", RT + ":update_af"), ("sibling arrays extended together", RT + ":add_af"), ("order of registration and update", RT + ":add_phase")])

prop("C15", "Invalid arguments are rejected, never silently interpreted",
 "An unknown data_type, output kind, deviation kind, noise exponent outside the range a dispatch covers or deviation name, a zero rate given to a deviation estimator, inconsistent PSD node arrays or non-positive durations raise an exception from every function that takes such an argument, whatever the other arguments; none of them returns a result computed under another interpretation. (psd2allan accepts any word starting with a or m; edf_simple and what falls back on it documents a default for unknown noise.)",
 ["inputs", "configurations"], "all invalid values of the enumerated arguments, all functions",
 "Tests try one or two bad values on one or two functions.",
 [AT, CI, NZ, NK, DS], [("else: raise in the data_type dispatch", AT + ":input_to_phase,htotdev"), ("rate check", AT + ":tau_generator"), ("validation block", NZ + ":timmer_koenig_from_psd"), ("dispatch", CI + ":autocorr_noise_id,edf_greenhall"), ("white list", DS + ":compute")])

prop("C16", "Lists, arrays and integer data give the same results",
 "Every deviation function and phase/frequency conversion accepts its data as a Python list or as a numpy array, holding floats or integers, and the result depends only on the numbers, not on the container or the number type.",
 ["inputs"], "all functions, both containers, both number types",
 "Each function's tests use one container and float data; list repetition instead of multiplication, or truncation by an integer buffer, shows only for the other combinations.",
 [AT], [("np.array(data)", AT + ":tau_generator"), ("float work arrays", AT), ("numpy conversions", AT + ":frequency2phase,phase2frequency")])

prop("C17", "Gaps (NaN) in the data never poison GRADEV",
 "With NaN-marked gaps in phase data, GRADEV at every averaging time is computed from exactly those second differences whose three samples are present, with n their number; leading and trailing gaps are trimmed from frequency data before integration and interior ones do not enter its mean. No NaN reaches a reported deviation or count while one difference is complete.",
 ["inputs"], "all positions and numbers of gaps, all averaging times",
 "The gradev tests use one gap pattern and a tolerance of tens of percent.",
 [AT], [("np.nansum and the count of non-NaN differences", AT + ":calc_gradev_phase"), ("trim_data, nanmean", AT + ":frequency2phase,trim_data")])

prop("C18", "Telecom masks equal the ITU limits at every observation time",
 "For every observation interval tau the PRC, ePRTC, PRTC-A and PRTC-B MTIE and TDEV mask functions return the limit of the corresponding ITU-T recommendation (G.811, G.8272.1, G.8272), including at and between the breakpoints, so every mask is non-decreasing and continuous to better than 0.1 percent.",
 ["inputs"], "all real tau > 0, all eight masks",
 "The mask tests compare with an absolute tolerance of 1e-8, larger than most nanosecond limits, so almost any value passes.",
 [MK], [("piecewise affine limits", MK)])

prop("C19", "Noise generators return exactly the requested number of points",
 "For every requested number of points (odd or even) white, brown, violet, pink and the Kasdin generator return exactly that many samples, and timmer_koenig_from_psd returns int(duration/timestep) samples for both output kinds.",
 ["inputs"], "all lengths, both parities, both output kinds",
 "Tests use a few powers of two or even lengths.",
 [NZ, NK], [("num_points+1 before differencing", NZ + ":violet"), ("mirror of the half spectrum", NZ + ":timmer_koenig_from_psd"), ("truncation to nr", NK + ":generateNoise")])

prop("C20", "Noise generators and noise models use the published scale",
 "The generators scale unit random numbers so that the requested power-law PSD level is met at every sampling rate: white by sqrt(b0*fs/2), brown as the cumulative sum divided by fs of white noise at 4*pi^2*b_-2, violet as the difference times fs of white noise at b2/(4*pi^2), Kasdin noise by sqrt(qd) through the filter recursion of (1-z)^(b/2). Each pink sample is the sum of `depth` held unit draws and one fresh one, held draw c being renewed at the samples whose index has exactly c trailing zero bits. The Kasdin model's predicted PSD, ADEV, MDEV and PDEV levels equal the published functions of qd, b, tau0 and tau for every b in 0..-4. timmer_koenig_from_psd draws, at each grid frequency, a Hermitian-symmetric coefficient with two independent normal parts of amplitude sqrt(h_i f^(alpha_i) / (2 pi f)^2)/2 for the segment i the frequency lies in, and returns its inverse transform times sqrt((n-1)/dt), or the first difference divided by dt. numpy_psd is the one-sided periodogram 2|X|^2/(n fs) on an axis from 0 to fs/2.",
 ["inputs", "configurations"], "all levels, sampling rates, noise exponents and averaging times",
 "Spectral tests are statistical and run at one sampling rate; the predicted levels are compared with simulations to within tens of percent.",
 [NZ, NK], [("scale factors", NZ + ":white,brown,violet"), ("filter recursion", NK + ":generateNoise"), ("coefficients", NK + ":phase_psd_from_qd,frequency_psd_from_qd,adev_from_qd,mdev_from_qd,pdev_from_qd")])

prop("C21", "Greenhall EDF follows the published algorithm in every case",
 "For every noise exponent from +2 to -4, every difference order d in 1..3 for which it is defined, every m and N, and each combination of overlapped/modified, the equivalent degrees of freedom are those of the published combined EDF algorithm: the generalized autocovariance functions, the truncated sums and the case selection and table coefficients are the published ones, and an undefined table entry is never used.",
 ["inputs", "configurations"], "noise exponents x difference orders x overlapped/modified flags x all m, N",
 "Tests tabulate a few (alpha, m, N) points for d=2 and 3; most table cells and cases are never reached.",
 [CI], [("case analysis", CI + ":edf_greenhall"), ("central differences", CI + ":greenhall_sz,greenhall_sx,greenhall_sw"), ("truncated sum", CI + ":greenhall_BasicSum"), ("tables", CI + ":greenhall_table1,greenhall_table2,greenhall_table3")])

prop("C22", "Offsets and drifts that an estimator rejects have no effect",
 "For every data set, adding a constant or a linear trend to the phase leaves the ADEV, OADEV, MDEV, TDEV, PDEV, TOTDEV, MTOTDEV, TTOTDEV, THEO1 and GRADEV families unchanged; adding a quadratic trend leaves HDEV, OHDEV and (frequency drift) HTOTDEV's Hadamard term unchanged; adding a constant to the phase leaves MTIE and TIErms unchanged; adding a constant to frequency data leaves every deviation unchanged.",
 ["inputs"], "all data, all offsets and trends, all averaging factors",
 "Tests never perturb a record by a trend and compare.",
 [AT, RT], [("difference coefficients", AT), ("mean removal", AT + ":frequency2phase"), ("reflection at the end points", AT + ":totdev")])

prop("C23", "Deviations of a pure frequency drift have the textbook value",
 "For a record with constant frequency drift D (phase D*t*t/2) ADEV, OADEV and MDEV are exactly |D|*tau/sqrt(2), PDEV is |D|*tau/sqrt(2) at m=1 and |D|*tau/sqrt(2)*(m^2-1)/m^2 at m>=2 (the discrete parabolic variance of a drift), TDEV is |D|*tau^2/sqrt(6), TIErms and MTIE follow the phase increments exactly, and for constant drift rate D2 (phase D2*t^3/6) HDEV and OHDEV are |D2|*tau^2/sqrt(6), at every averaging factor, rate and record length.",
 ["inputs"], "all averaging factors, record lengths, rates and drift values",
 "No test uses a deterministic drift; a wrong normalisation shared by code and stored results, or wrong only at rates other than 1 or at some m, is invisible.",
 [AT], [("normalisation constants", AT)])

prop("C24", "Dataset runs exactly the named deviation on exactly its input",
 "Dataset.compute(name) calls only a function of the library whose name is a deviation (ending in 'dev') or one of theo1, mtie, tierms, passes it exactly the data, rate, data_type and taus that were set, and stores and returns its four outputs under taus, stat, stat_err, stat_n together with the name. If the name is refused or the computation raises, the previous results and the input are left as they were.",
 ["histories", "inputs"], "all names, inputs and sequences of set_input/compute",
 "Tests call a few names once on a fresh object.",
 [DS], [("white list before call", DS + ":compute"), ("out assigned after the call returned", DS + ":compute"), ("set_input", DS + ":set_input")])

prop("C25", "Result files and plots show the computed columns unaltered",
 "In a file written by a Dataset, row i holds the averaging factor tau*rate, tau, n, deviation minus and plus half the error, and the deviation of result row i in the columns named so, for every number of digits and every row; the header states the library version, the data type and rate of that computation and every header parameter given. The plot shows deviation against tau, with the stored errors if asked, and passes further keywords on to matplotlib.",
 ["inputs", "histories"], "all results, digits, rates and averaging-time grids",
 "Tests write one file with grid starting at the sampling interval and look at it loosely or not at all; plot tests only run.",
 [DS, PL], [("format fields", DS + ":write_results"), ("plot arguments", PL + ":plot")])

prop("C26", "Phase and frequency conversions are mutually inverse",
 "phase2frequency of frequency2phase returns the frequency data minus its mean for every record and rate; frequency2phase returns one more point than its gap-trimmed input, starts at zero and is the running integral of the mean-removed data with step 1/rate; phase2frequency is the first difference times the rate. phase2radians is 2*pi*v0 times the phase, and frequency2fractional is (f-mean)/mean with the given or computed mean.",
 ["inputs"], "all records, rates and lengths",
 "Tests check one record at one rate for each conversion.",
 [AT], [("cumsum and insert", AT + ":frequency2phase"), ("diff", AT + ":phase2frequency"), ("scale", AT + ":phase2radians"), ("normalise", AT + ":frequency2fractional")])

prop("C27", "Three-cornered hat recovers one clock's variance",
 "For pairwise deviations of clocks A, B, C the three-cornered hat returns, at every averaging time, sqrt(max(0, (s_ab^2 + s_ca^2 - s_bc^2)/2)), calling the given estimator once per pair with the same rate and averaging times, and returns the error as deviation over the square root of the pair AB's counts. The result is real and never negative.",
 ["inputs"], "all data, estimators, rates and averaging times",
 "Tests use one simulated set and compare within a broad factor.",
 [AT], [("linear combination and clipping", AT + ":three_cornered_hat_phase")])

prop("C28", "Confidence bounds bracket the deviation with the stated coverage",
 "confidence_interval returns (dev*sqrt(edf/q_hi), dev*sqrt(edf/q_lo)), q_lo and q_hi being the chi-square quantiles with edf degrees of freedom that leave half of 1-ci in each tail, so lower < upper for every positive dev and edf; the noise-identifying variant takes the identified exponent, the difference order (2 for the Allan, 3 for the Hadamard family), the overlapped/modified flags and the number of points that belong to the named deviation. GRADEV's error bounds come from the same interval with the deviation, edf and confidence in their own roles and the exponent that belongs to the named noise type.",
 ["inputs", "configurations"], "all deviations, edf, confidences, noise types and deviation names",
 "Tests evaluate one sigma intervals at few points and never examine gradev's bounds.",
 [CI, AT], [("chi-square quantiles", CI + ":confidence_interval"), ("per-deviation flags", CI + ":confidence_interval_noiseID"), ("call and noise-type map", AT + ":calc_gradev_phase")])

prop("C29", "No internal name, arity or unassigned-variable error can occur",
 "For every combination of argument values, no execution of any library function reaches a variable or attribute that has not been assigned on that path, an undefined name, or a call of a library function with missing, surplus or unknown arguments; invalid input is answered by a deliberate exception.",
 ["inputs", "programs"], "every path of every function and method",
 "Tests execute a fraction of the argument-dependent branches.",
 [AT, CI, DS, MK, NZ, NK, RT, PL], [("branch exhaustiveness", AT + ":psd2allan"), ("branch exhaustiveness", NK + ":adev_from_qd"), ("call signatures", AT), ("attributes set in constructors", RT)])

prop("C30", "Simple EDF formulas and noise tables equal the published ones",
 "For every N, m and noise exponent from +2 to -2, the simple EDF formulas and the total and modified total EDF approximations are those of NIST SP 1065, and any other exponent falls back to N-1 in the simple form. The exponent-to-mu map, the theoretical B1 and R(n) ratios and their decision boundaries used for noise identification are the published ones for every exponent and averaging factor.",
 ["inputs", "configurations"], "all N, m, noise exponents",
 "Tests evaluate a few exponents at a few points and mostly print.",
 [CI], [("formulas", CI + ":edf_simple,edf_totdev,edf_mtotdev"), ("maps", CI + ":b_to_mu,b1_theory,rn_theory,rn_boundary,b1_boundary")])

prop("C31", "Autocorrelation noise identification follows its definition",
 "autocorr_noise_id decimates phase (or block-averages frequency) by the averaging factor, removes the quadratic (linear) trend, computes the lag-1 autocorrelation r1 and rho = r1/(1+r1), differences the series until rho < 1/4 or the maximum order is reached but never less than the minimum order, and reports alpha = -2(rho+d)+2 for phase and two less for frequency data together with its rounded integer, d and rho; it refuses series shorter than 30 points.",
 ["inputs", "configurations"], "all series, averaging factors, orders and data types",
 "Tests check that the identified integer is right for a few simulated noises.",
 [CI], [("loop and decision", CI + ":autocorr_noise_id"), ("estimator", CI + ":lag1_acf"), ("detrend", CI + ":detrend")])

prop("C32", "PSD to deviation conversions integrate the textbook transfer function",
 "psd2allan integrates S_y times 2 sin^4(pi f tau)/(pi f tau)^2 (ADEV) or 2 sin^6(pi f tau)/(pi f tau)^4 (MDEV) over frequency at every averaging time it reports, and the piecewise power-law conversions use 2 sin^4(pi f tau)/(pi f tau)^2 with, per segment, the level and exponent of that segment between its own two frequency nodes.",
 ["inputs"], "all spectra, averaging times and kinds",
 "Tests compare a few spectra with simulated results to within percents.",
 [AT], [("integrand", AT + ":psd2allan"), ("segment integrals", AT + ":psd_piecewise_to_adev")])

prop("C37", "Deviation nodes convert to the power-law PSD segments they imply",
 "For every admissible set of nodes and both deviation types, adev2psd_piecewise_approx merges neighbouring intervals whose log-log slopes mu agree within mu_tol, gives each remaining segment the exponent -mu-1 and the level h for which the power-law integral sigma^2 = 2 h (pi tau)^mu times the integral of q(z) sin^4(z)/z^(3+mu) (q = 1 for ADEV, 4/3 sin^2 z for HDEV) reproduces the segment's deviation, lists segments from the longest averaging time down, and reports for several segments the frequencies where neighbouring laws meet with their common value, and for two nodes the law at 1/tau of both; unequal or short inputs, non-positive values, non-increasing times and slopes outside -2..2 (ADEV) or -2..4 (HDEV) are refused.",
 ["inputs", "configurations"], "all node sets, both deviation types and all tolerances",
 "Tests convert a few node sets and compare within percents after a round trip.",
 [AT], [("segments", AT + ":adev2psd_piecewise_approx")])

# properties of the system that this technique family cannot decide
prop("C33", "Simulated noise has the requested power-law spectrum and slope",
 "The power spectrum and the deviation slopes of the generated white, pink, brown, violet and Kasdin noise agree with the requested power law and level within the statistical uncertainty of the record, for every length, level and exponent.",
 ["inputs"], "all lengths, levels, exponents and seeds",
 "Statistical tests at a few lengths with broad tolerances.",
 [NZ, NK], [("filters", NK + ":generateNoise"), ("multi-rate sum", NZ + ":iterpink")])
prop("C34", "Noise identification finds the true noise type",
 "For a sufficiently long series of pure power-law noise the lag-1 method, B1 and R(n) identify the true exponent with the probability the literature states.",
 ["inputs"], "all noise types, lengths and averaging factors",
 "Tests use a few seeds.", [CI], [("identification", CI + ":autocorr_noise_id")])
prop("C35", "ADEV to PSD and PSD to ADEV conversions invert each other",
 "Converting a piecewise power-law ADEV to a PSD and back returns the original ADEV within the accuracy stated for the approximation, for every admissible set of nodes.",
 ["inputs"], "all admissible node sets",
 "Tests use a few node sets.", [AT], [("approximation", AT + ":adev2psd_piecewise_approx,psd_piecewise_to_adev")])
prop("C36", "Floating-point evaluation stays accurate for large records",
 "The reported deviations agree with the exact value of their defining formula to within a small multiple of machine precision times the conditioning of the formula, for every record length and magnitude.",
 ["inputs"], "all record lengths and magnitudes",
 "Tests compare with stored results of similar size at 1e-4.", [AT, RT], [("running sums", RT + ":update_S"), ("cumsum", AT + ":mdev")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
