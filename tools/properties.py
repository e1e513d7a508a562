#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Bits and symbols map onto each other without loss",
 "For every signal type that maps bits to symbols (QAM, PSK, QPSK-from-ASK), however it is created (at random, from given bits, from given symbols, or by modulating bits), each mode's symbols are exactly the mapping of that mode's stored bits, and demodulating or deciding noiseless symbols returns exactly those bits and symbols. Bits that do not fill a whole symbol are dropped from the end, and every symbol taken from outside is represented by the nearest alphabet point.",
 ["inputs", "configurations"], "all supported constellation sizes, mode counts, lengths, bit patterns and dtypes",
 "The tests check a handful of lengths and seeds, mostly single-mode; a mapping error needs a particular mode, symbol or length.",
 ["qampy/signals.py", "qampy/theory.py", "qampy/core/equalisation/pythran_equalisation.py"],
 [("SignalQAMGrayCoded._modulate / _demodulate", "qampy/signals.py"), ("from_bit_array/from_symbol_array", "qampy/signals.py")],
 ["signal.bits, signal.symbols, signal.modulate(), signal.demodulate(), signal.make_decision()"])
prop("C02", "Constellations are complete, unit-power and Gray labelled",
 "For every supported QAM and PSK order the alphabet has exactly M distinct points with mean power one (equiprobable), lying on the regular grid or circle of that format (QPSK on the diagonals), and every point carries a different label of log2(M) bits. In square QAM and PSK, points at minimum distance differ in exactly one bit.",
 ["configurations"], "every supported modulation order and dtype",
 "Tests check power for a few orders; completeness and Gray adjacency of every pair of points is never checked.",
 ["qampy/theory.py", "qampy/signals.py"],
 [("cal_symbols_qam, cal_scaling_factor_qam, gray_code_qam", "qampy/theory.py"), ("_generate_mapping / coded_symbols", "qampy/signals.py")],
 ["signal.coded_symbols, signal.modulate(bits), qampy.theory.cal_symbols_qam"])
prop("C03", "Every decision is the nearest alphabet point",
 "For any received sample and any alphabet, the hard decision returned is an alphabet point at minimum Euclidean distance, and the reported index and distance belong to that very point. This holds for every decision routine in the library and does not depend on how many samples are decided at once.",
 ["inputs"], "any finite complex samples and alphabets, single and double precision, any length",
 "Tests compare a few noisy QAM signals; boundaries, far-away samples, odd alphabets and long inputs are not reached.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/signals.py"],
 [("make_decision, det_symbol, det_symbol_parallel", "qampy/core/equalisation/pythran_equalisation.py"), ("signal.make_decision", "qampy/signals.py")],
 ["return values of the decision functions"])
prop("C04", "SER, BER and EVM equal a direct count against what was sent",
 "For a signal aligned with its transmitted data, the reported symbol error rate, bit error rate and EVM of each mode are exactly the fraction of wrongly decided symbols, the fraction of wrong bits and the rms error, each counted independently against the transmitted symbols and bits of that mode. Details requested in verbose mode agree with the reported number, and computing a metric does not alter the signal.",
 ["inputs", "configurations"], "all formats, mode counts, lengths and error patterns",
 "Tests check error-free signals and rates within statistical bounds, which a wrong count at low rate or in one mode slips through.",
 ["qampy/signals.py", "qampy/core/ber_functions.py", "qampy/core/signal_quality.py"],
 [("cal_ser, cal_ber, cal_evm", "qampy/signals.py"), ("cal_ber_syncd, sync_and_adjust", "qampy/core/ber_functions.py")],
 ["signal.cal_ser(), signal.cal_ber(), signal.cal_evm()"])
prop("C05", "Synchronisation finds any delay, rotation and length difference",
 "For a received copy of a transmitted sequence with any cyclic delay, any multiple-of-90-degree rotation, moderate noise and any longer or shorter length, the synchronisation functions report the true delay and rotation and return transmitted and received arrays of the same length that correspond element by element. Hence unsynchronised error metrics equal the ones of the aligned signal, mode by mode.",
 ["inputs"], "all delays, rotations, lengths, mode orders and adjustment directions",
 "Tests use a few fixed shifts; off-by-one slips occur at particular delays and length combinations.",
 ["qampy/core/ber_functions.py", "qampy/signals.py"],
 [("find_sequence_offset, find_sequence_offset_complex, sync_and_adjust, adjust_data_length, sync_tx2rx, sync_rx2tx", "qampy/core/ber_functions.py"), ("_sync_and_adjust / _adjust_only", "qampy/signals.py")],
 ["return values of the synchronisation functions; signal.cal_ser/cal_ber/cal_evm on shifted signals"])
prop("C06", "Signal objects keep their description through processing",
 "Any signal-preserving operation (numpy arithmetic, slicing along time, copying, and the library's signal-in signal-out functions) returns a signal of the same type whose format, symbol rate, sampling rate, transmitted symbols and bits and pilot description are those of the input, except for the attribute the operation is documented to change. The transmitted reference is never altered by impairing or processing the received samples.",
 ["inputs", "histories"], "every signal class, every public signal-in signal-out function, and sequences of them",
 "Tests assert a few attributes after single operations; chains and rarely used attributes/classes are not covered.",
 ["qampy/signals.py", "qampy/equalisation.py", "qampy/impairments.py", "qampy/phaserec.py", "qampy/filtering.py", "qampy/analog_frontend.py", "qampy/helpers.py"],
 [("__array_finalize__, _copy_inherits, recreate_from_np_array", "qampy/signals.py")],
 ["attributes of returned signal objects"], state=[("_symbols/_bits/_fb/_fs/_M", "transmitted reference and rates", "qampy/signals.py")])
prop("C07", "Saving, pickling and copying restore the same signal",
 "Saving a signal (or any list or dict of Python objects) and loading it, pickling and unpickling, and copying give back an object of the same type with the same samples, dtype, rates, alphabet, transmitted symbols and bits and pilot description, at every compression level; the restored signal reports the same error metrics and is independent of the original.",
 ["inputs", "configurations"], "all signal classes, dtypes and compression levels",
 "Tests round-trip a few attributes of a few classes at the default level.",
 ["qampy/signals.py", "qampy/core/io.py", "qampy/io.py"],
 [("__reduce__/__setstate__", "qampy/signals.py"), ("save_signal/load_signal", "qampy/io.py, qampy/core/io.py")],
 ["loaded objects versus saved objects"])
prop("C08", "Processing functions do not modify their arguments",
 "A function that returns its result leaves every array, signal object, tap array and list it was given bit-for-bit unchanged, including that signal's stored reference symbols, bits and pilots. The only exceptions are methods documented to act in place on the object they are called on.",
 ["inputs", "configurations"], "every public function of the library over its argument combinations and dtypes",
 "Tests almost never compare the inputs before and after, and mutation can depend on dtype, contiguity or options.",
 ["qampy/core/equalisation/equalisation.py", "qampy/equalisation.py", "qampy/impairments.py", "qampy/core/impairments.py", "qampy/core/analog_frontend.py", "qampy/core/phaserecovery.py", "qampy/signals.py", "qampy/core/ber_functions.py", "qampy/core/filter.py", "qampy/core/resample.py"],
 [("copies on entry", "all modules")], ["arguments before and after each call"])
prop("C09", "Adaptive equalisers follow their documented update rule",
 "For every training method, the returned taps and errors are those of the documented stochastic-gradient recursion run from the given initial taps, step size, symbols, iteration count and training length, with the step size adapted by the documented rule when requested. Each mode's taps and error depend only on that mode's settings, never on which other modes are trained, their order or the number of threads.",
 ["inputs", "configurations", "schedules"], "all methods, mode subsets, tap counts, oversampling, iteration counts, precisions",
 "Tests only check that some signals converge, which wrong error terms, dropped terms or mode coupling often still do.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/core/equalisation/equalisation.py", "qampy/equalisation.py"],
 [("train_equaliser, train_equaliser_realvalued, error functions, adapt_step", "qampy/core/equalisation/pythran_equalisation.py"), ("equalise_signal, dual_mode_equalisation", "qampy/core/equalisation/equalisation.py")],
 ["returned taps and error arrays"])
prop("C10", "Results do not depend on thread count or schedule",
 "Every function whose inner loops run on several threads returns the same result (up to the rounding of sums) for one thread and for any number of threads and any scheduling, run after run, and no two threads access the same memory location without synchronisation when one of them writes.",
 ["schedules", "configurations"], "thread counts 1..8, schedules, repeated runs, inputs that occupy all parallel loops",
 "The test-suite runs with a single thread because of exactly this concern.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/core/pythran_dsp.py"],
 [("OpenMP parallel loops", "qampy/core/pythran_dsp.py, qampy/core/equalisation/pythran_equalisation.py")],
 ["results under different OMP_NUM_THREADS/OMP_SCHEDULE; ThreadSanitizer reports"])
prop("C11", "Applying an equaliser is exactly FIR filtering and decimation",
 "Applying taps to a signal gives, for each requested mode and in the requested order, the sum over all input modes and taps of the tap times the sample in a sliding window that advances by the oversampling factor, for every window that fits in the signal. Real-valued taps on complex signals act on the real and imaginary parts as separate inputs and outputs.",
 ["inputs", "configurations"], "all mode counts and subsets, tap counts, oversampling factors, lengths, precisions",
 "Tests compare a few shapes; the edge windows, mode subsets and real-valued case are not checked against a definition.",
 ["qampy/core/equalisation/equalisation.py", "qampy/core/equalisation/pythran_equalisation.py", "qampy/equalisation.py"],
 [("apply_filter_to_signal", "qampy/core/equalisation/pythran_equalisation.py"), ("apply_filter", "qampy/core/equalisation/equalisation.py")],
 ["filter output"])
prop("C12", "Compiled kernels never touch memory outside their arrays",
 "For every argument combination the public API accepts, the compiled signal-processing kernels read and write only inside the arrays they were given or allocated and execute no undefined behaviour; arguments that would require data that is not there (too many training symbols, too few data-aided symbols, a mode that does not exist, a filter longer than the signal) are rejected with an exception or give an empty or shortened result.",
 ["inputs", "configurations"], "boundary shapes and sizes of every exported kernel and of the API functions that call them",
 "A stray read usually goes unnoticed in tests: the interpreter does not check bounds and assertions are compiled out.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/core/pythran_dsp.py", "qampy/core/equalisation/equalisation.py", "qampy/core/phaserecovery.py"],
 [("argument checks in equalise_signal", "qampy/core/equalisation/equalisation.py")],
 ["AddressSanitizer and UndefinedBehaviorSanitizer reports from instrumented builds of the kernels"])
prop("C13", "Blind phase search returns the best test phase and applies it",
 "At every sample whose averaging window fits, blind phase search picks the test angle that minimises the summed squared distance to the alphabet over that window, up to the unwrapping by multiples of 90 degrees, and the returned signal is the input rotated by the returned phase. The compiled and the pure Python variant agree, modes are treated independently, and the two-stage variant stays within half a cell of its first stage and is finer than it.",
 ["inputs", "configurations"], "all alphabets, window lengths, angle counts, mode counts, noise and phase trajectories",
 "Tests check recovery of a constant angle; window misalignment or a suboptimal angle under noise stays invisible.",
 ["qampy/core/phaserecovery.py", "qampy/core/pythran_dsp.py", "qampy/phaserec.py"],
 [("bps, select_angles", "qampy/core/pythran_dsp.py"), ("bps, bps_twostage", "qampy/core/phaserecovery.py")],
 ["returned phase and signal"])
prop("C14", "Carrier offset and phase estimators invert what they estimate",
 "A carrier frequency offset within the estimator's range is estimated to its documented resolution and removing it restores the signal up to a constant phase, independently for each mode; the fourth-power estimators and the partition-based estimators return, for each mode, a phase whose removal restores that mode up to a multiple of 90 degrees. The returned signal always equals the input times the returned phase correction.",
 ["inputs", "configurations"], "all offsets in range, phases, mode counts, oversampling factors and block lengths",
 "Tests use few offsets and mostly identical modes, so sign, scaling and per-mode mix-ups at other values survive.",
 ["qampy/core/phaserecovery.py", "qampy/phaserec.py"],
 [("find_freq_offset, comp_freq_offset, viterbiviterbi, phase_partition_16qam", "qampy/core/phaserecovery.py")],
 ["returned estimates and signals"])
prop("C15", "Pilots and payload partition each frame exactly",
 "In a pilot-inserted signal every frame consists of the pilot sequence, then payload with one phase pilot at every insertion interval, so that pilots and payload together are the frame with nothing lost or repeated, and generated pilots are symbols of the pilot format times pilot_scale. Extracting payload or pilots for any selection of frames returns exactly the transmitted payload or pilots of those frames in order, and error metrics of a frame selection are the ones of that selection.",
 ["inputs", "configurations"], "all frame lengths, sequence lengths, insertion ratios, frame counts, frame selections, modes",
 "Tests use one or two geometries; frame selections and geometry edge cases are not covered.",
 ["qampy/signals.py"],
 [("SignalWithPilots", "qampy/signals.py")],
 ["get_data, extract_pilots, pilot_seq, ph_pilots, cal_ser/ber/evm(frames=...)"])
prop("C16", "The pilot receiver restores any delayed, distorted frame sequence",
 "For a pilot signal (payload of 16 or more levels, pilot sequence long enough to train on) received with any frame delay, any mode swap the receiver supports, frequency offset within range and moderate noise and mixing (short of an equal split of the modes), frame synchronisation finds the true frame start of each mode and the pilot equalisers return the payload of the requested frame error free. The returned taps reproduce the returned signal when applied again, for every combination of filter lengths and options.",
 ["inputs", "configurations"], "all delays, geometries, modes, tap counts, offsets",
 "Tests use two or three delays and fixed tap counts; alignment slips occur at particular delays and tap-count combinations.",
 ["qampy/core/pilotbased_receiver.py", "qampy/equalisation.py", "qampy/signals.py", "qampy/phaserec.py"],
 [("frame_sync, find_const_phase, pilot_based_cpe", "qampy/core/pilotbased_receiver.py"), ("pilot_equaliser, pilot_equaliser_nframes", "qampy/equalisation.py"), ("sync2frame", "qampy/signals.py")],
 ["shiftfctrs, equalised payload, taps"])
prop("C17", "Lossless impairments preserve energy and can be undone",
 "Polarisation rotation, PMD, phase noise, carrier offset, chromatic dispersion and modal delay are lossless: they keep the signal's energy, leave modes in place (except where they mix them by the stated rotation), and applying the inverse parameters restores the input. Delays and rotations act by the stated amount and phase noise has the stated linewidth.",
 ["inputs", "configurations"], "all parameter values, mode counts, lengths (odd and even), dtypes",
 "Tests check few parameter values, often only that something ran.",
 ["qampy/core/impairments.py", "qampy/impairments.py"],
 [("rotate_field, apply_PMD_to_field, add_carrier_offset, add_dispersion, add_modal_delay, apply_phase_noise", "qampy/core/impairments.py")],
 ["impaired signals"])
prop("C18", "Resampling and pulse shaping keep symbols and rates",
 "Resampling returns a signal whose length and sampling rate match the requested ratio, and resampling up and back, or root-raised-cosine shaping followed by its matched filter, returns the transmitted symbols at the symbol instants without a shift and with the power convention requested. Filtering acts on every mode alike and is linear.",
 ["inputs", "configurations"], "all rational rate ratios, roll-offs, lengths, mode counts, options",
 "Tests use few ratios and inspect the spectrum of a single mode.",
 ["qampy/core/resample.py", "qampy/core/filter.py", "qampy/core/special_fcts.py", "qampy/helpers.py", "qampy/signals.py", "qampy/filtering.py"],
 [("resample_poly, rrcos_resample", "qampy/core/resample.py"), ("rrcos_pulseshaping", "qampy/core/filter.py"), ("SignalBase.resample", "qampy/signals.py")],
 ["resampled signals"])
prop("C19", "PRBS and bit generators produce the defined sequences",
 "Every PRBS order satisfies its feedback polynomial at every position for any non-zero seed and has full period, the compiled generators agree with the plain shift registers, and per-mode orders and seeds are honoured. Bit-source objects are reproducible from their seed, hold exactly the requested number of 0/1 values per mode and differ between modes unless the same seed is given.",
 ["inputs", "configurations"], "all orders, seeds, lengths and mode counts",
 "Tests compare one or two seeds over a short length.",
 ["qampy/core/prbs.py", "qampy/signals.py"],
 [("make_prbs_extXOR, prbs_int", "qampy/core/prbs.py"), ("PRBSBits, RandomBits", "qampy/signals.py")],
 ["generated sequences"])
prop("C20", "Soft metrics are consistent and bounded",
 "Bit log-likelihood ratios equal the exact or max-log definition for the given alphabet, labelling and noise, so their sign agrees with the hard decision at high SNR; GMI and mutual information stay within zero and log2(M), approach log2(M) at high SNR, order correctly and equal an independent computation from the same samples. The estimated SNR equals signal over error power and tracks the applied SNR.",
 ["inputs", "configurations"], "all formats, SNRs, modes, lengths",
 "Tests compare against a theory curve with wide tolerance for one mode.",
 ["qampy/core/signal_quality.py", "qampy/core/pythran_dsp.py", "qampy/signals.py"],
 [("soft_l_value_demapper, estimate_snr, cal_mi", "qampy/core/pythran_dsp.py"), ("cal_gmi, cal_mi, est_snr", "qampy/signals.py")],
 ["returned metrics"])
prop("C21", "DAC and modulator models keep to their definition",
 "A quantiser with n bits outputs at most 2^n levels on a uniform grid, each sample within half a step of its input inside the range, and is monotonic and odd-symmetric; clipping and modulator models are memoryless and bounded as documented; effective-number-of-bits noise has the stated power. The combined transmitter and DAC simulation leaves shape, sampling rate and transmitted data unchanged apart from documented resampling.",
 ["inputs", "configurations"], "all bit numbers, signal ranges, clipping ratios, dtypes",
 "Tests check the call returns an array of the same shape.",
 ["qampy/core/impairments.py", "qampy/impairments.py"],
 [("quantize_signal, quantize_signal_New, clipper, apply_DAC_filter, modulator_response, apply_enob_as_awgn", "qampy/core/impairments.py")],
 ["output samples"])
prop("C22", "Windowing helpers return exactly the windows of the data",
 "Segmenting, rolling-window and moving-average helpers return exactly the windows (or window means) of the input at the documented positions for every length, overlap, axis and end policy, and normalisation and truncation helpers return exactly the documented scaling and section.",
 ["inputs"], "all lengths, overlaps, axes, end policies, dtypes",
 "Tests cover a few hand-written shapes.",
 ["qampy/core/segmentaxis.py", "qampy/core/utils.py", "qampy/helpers.py"],
 [("segment_axis", "qampy/core/segmentaxis.py"), ("rolling_window_wrap, rolling_window, find_offset", "qampy/core/utils.py"), ("normalise_and_center, rescale_signal, dump_edges", "qampy/helpers.py")],
 ["returned arrays"])
prop("C23", "Single and double precision give the same answer",
 "For every processing function, single-precision input yields single-precision output of the same shape that agrees with the double-precision result to single-precision accuracy, and integer results (indices, shifts, decisions) agree away from ties.",
 ["inputs", "configurations"], "all processing functions and methods in both precisions",
 "Tests check output dtypes for part of the functions and values for almost none.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/core/pythran_dsp.py", "qampy/core/phaserecovery.py", "qampy/core/impairments.py", "qampy/signals.py"],
 [("dtype-specific exports and casts", "all modules")],
 ["dtype and values of results in both precisions"])
prop("C24", "Pattern look-up tables hold the mean error of each pattern",
 "The pre-distortion look-up table has one entry per symbol pattern, each the mean deviation between received and transmitted centre symbol over exactly the positions where that pattern occurs, and subtracting the table entry at those positions removes that mean deviation. Pattern indices identify the pattern at each position.",
 ["inputs"], "all pattern lengths, alphabets and sequences",
 "Tests cover one alphabet and the ideal case.",
 ["qampy/core/digital_pre_compensation.py"],
 [("cal_lut, find_sym_patterns", "qampy/core/digital_pre_compensation.py")],
 ["table and pattern index"])
prop("C25", "Receiver front-end corrections undo the imbalance they address",
 "Orthonormalisation gives in-phase and quadrature parts that are uncorrelated, zero-mean and of equal power for every mode and restores a signal with gain and phase imbalance up to a common scale; IQ-imbalance and RF-delay compensation restore a signal that was impaired with the corresponding parameters.",
 ["inputs", "configurations"], "all imbalance parameters, mode counts, lengths",
 "Only existence is tested.",
 ["qampy/core/analog_frontend.py", "qampy/analog_frontend.py"],
 [("orthonormalize_signal, comp_IQ_inbalance, comp_rf_delay", "qampy/core/analog_frontend.py")],
 ["corrected signals"])
prop("C26", "Theoretical curves agree with the channel they describe",
 "Theoretical SER, BER and EVM curves are probabilities or ratios that fall monotonically with SNR and agree with Monte-Carlo simulation of the library's own modulator, noise loading and metrics, for every order, within statistical confidence and the accuracy of the approximation the formula is documented to make (union bound, nearest neighbours).",
 ["inputs", "configurations"], "all orders and SNR ranges",
 "Tests compare a few orders at few SNRs with wide tolerance.",
 ["qampy/theory.py", "qampy/impairments.py", "qampy/signals.py"],
 [("ser_vs_es_over_n0_qam, ber_vs_es_over_n0_qam, ...", "qampy/theory.py")],
 ["curve values and measured metrics"])
prop("C27", "Blind equalisation recovers dispersive polarisation-mixed signals",
 "For a dual-polarisation signal through any polarisation rotation and moderate PMD at workable SNR, blind equalisation with each suitable method followed by phase recovery returns all transmitted streams with the error rate of the undistorted channel, and the taps returned reproduce the equalised signal.",
 ["inputs", "configurations"], "rotations, PMD values, methods, formats and seeds",
 "Tests use one or two angles per method and format with 1 to 2 formats.",
 ["qampy/equalisation.py", "qampy/core/equalisation/equalisation.py", "qampy/phaserec.py"],
 [("equalise_signal, dual_mode_equalisation, apply_filter", "qampy/equalisation.py")],
 ["error metrics after the chain"])
prop("C28", "Time-domain hybrid signals interleave their formats exactly",
 "A time-domain hybrid QAM signal places the symbols of its two formats at the documented fraction and positions in every frame and mode, the parts extracted again are exactly the component signals, and the power ratio between the formats follows the requested convention.",
 ["inputs", "configurations"], "all format pairs, ratios, lengths, mode counts, power conventions",
 "Tests check the frame fraction for a few ratios.",
 ["qampy/signals.py"], [("TDHQAMSymbols", "qampy/signals.py")], ["samples, symbols_M1/symbols_M2, divide functions"])
prop("C29", "Noise loading hits the requested SNR",
 "Noise loading produces, for every mode, circular white Gaussian noise of equal power, independent between modes and of the signal, whose power per symbol relative to the mean signal power of the modes is the requested SNR irrespective of oversampling, signal power and dtype, and repeated calls use fresh noise.",
 ["inputs", "configurations"], "all SNRs, oversampling factors, powers, mode counts",
 "Tests check an SNR estimate of one configuration.",
 ["qampy/core/impairments.py", "qampy/impairments.py"],
 [("change_snr, add_awgn, simulate_transmission", "qampy/impairments.py, qampy/core/impairments.py")],
 ["noise = output minus input"])
prop("C30", "Imported measurement files keep modes, order and values",
 "Loading a MATLAB measurement or symbol file returns every requested variable as the modes of one array, in the requested order, real and imaginary parts combined and normalised as requested, with nothing reordered, dropped or rescaled otherwise.",
 ["inputs", "configurations"], "all key layouts, shapes, sampling rates, normalisation options",
 "Tests load one file written by the test.",
 ["qampy/core/io.py", "qampy/io.py"], [("ndarray_from_matlab, create_signal_from_matlab, load_symbols_from_matlab_file", "qampy/core/io.py, qampy/io.py")], ["imported arrays and signals"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
