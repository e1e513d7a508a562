def d(i, spec, oracle, reach): D[i] = {"Decided by": spec, "Oracle": oracle, "Why beyond the tests": reach}
d("C01", "reference oracle on every constructor (random, from bits, from symbols, BERT pattern) and on modulate/demodulate/make_decision", "label table built by modulating all M labels once; bits to symbols and back by table lookup per mode; nearest alphabet point for foreign symbols; partial last symbol dropped from the end", "the tests use two modes with the same size and one order at a time; wrong mode, wrong row or surplus bits need several modes with different data and odd lengths")
d("C02", "exhaustive enumeration of format x order x dtype x constructor; every pair of points is inspected", "definition: M distinct grid or circle points, mean power one, a bijection of labels, Hamming distance one between nearest neighbours", "the tests compare a few orders with themselves")
d("C03", "reference oracle on all decision routines (make_decision pythran and python, signal methods, find of index and distance, operators)", "brute-force distances in double precision; ties within rounding may go either way", "hostile samples (far out, on boundaries, clustered or single-point alphabets, 70000 and more samples) are not sampled by any test")
d("C04", "reference oracle on cal_ser, cal_ber, cal_evm and their verbose output", "own nearest neighbour and own bit table against the transmitted symbols, mode by mode, on constructed error patterns (including the first and last symbol only); digest of the signal before and after", "error counts of the tests are aggregate and use the same routines on both sides")
d("C05", "the received data are constructed from known delay, rotation, section and errors", "known ground truth: the aligned arrays are known element by element; unsynchronised metrics are compared with the aligned count", "all delay classes x length relations x dtypes, permuted modes, pieces with errors in the first search block")
d("C06", "random chains of operations with the state machine of the description as monitor: after every step type and description must be those of the input up to the documented change", "description fingerprint (class, fb, fs, M, symbols, bits, pilot positions, alphabets, seeds) predicted for each operation; parents and intermediates fingerprinted again at the end", "histories: attributes lost after the third operation, or references overwritten later, need sequences the tests do not run")
d("C07", "round trip of every class through files, pickles, copies, other processes; damaged files", "description and sample equality, equal metrics afterwards, no shared memory with the original (samples), error on truncated files", "class x level x protocol x state (sliced, synchronised, 1-D) product")
d("C08", "bit-level fingerprints of all arguments, buffers behind views, default arguments, module tables and earlier results, around every call", "equality of fingerprints", "in-place writes hit only some layouts or dtypes (no copy made when the dtype already matches), which the tests do not vary")
d("C09", "online check of the trace: from the returned errors the monitor rebuilds the taps before every step and requires each error to be the documented error function there; returned taps must be the end of that recursion; step size rule replayed", "documented error functions of all 14 methods in double precision, decisions near a boundary either way", "checks every step of every mode, including iterations, mode lists, adaptive steps, first and last step; the tests look at convergence")
d("C10", "ThreadSanitizer on the real kernels with the pthread OpenMP runtime; and results of one seeded workload under 1..8 threads, active/passive waiting, oversubscription, repetitions", "race reports; equality with one thread up to rounding of sums", "the tests run one schedule")
d("C11", "direct sum over windows", "FIR and decimation written from the definition in double precision, relative to the scale of taps and signal", "boundary sizes, mode lists, layouts, real-valued taps, tiny and huge scales")
d("C12", "AddressSanitizer and UBSan builds under boundary and hostile arguments; canary scenario proves the sanitizer is alive", "sanitizer reports; for arguments that need data that are not there: exception, empty or shortened result", "out-of-bounds accesses are invisible in the plain build")
d("C13", "brute-force phase search", "at every sample with a complete window the chosen angle reaches the minimum of the recomputed cost (within rounding); returned signal is input times returned phase; two-stage relation", "every decision of the search is checked, not the resulting error rate")
d("C14", "known offset and phase are applied, the estimate and the compensated signal are compared", "half a spectral bin whenever the line is clear (computed from the truth), exact inverse for removal, known phases modulo 90 degrees", "different offsets per mode over the whole range, transform sizes not a power of two, even windows")
d("C15", "independent masks for pilot sequence, phase pilots and payload; each frame gets its own errors", "index arithmetic; own error counts over the selected frames", "frame selections, repeated or fresh pilots, odd intervals and lengths")
d("C16", "end-to-end link with known truth, plus re-application of the returned taps", "true frame starts and payload; own FIR filter from the returned taps, shifts and modes", "every delay, permutation and tap-length combination; the tests run four configurations")
d("C17", "reference transforms and inversion", "own double precision DFT formulas for PMD and dispersion, exact rotation and delay, energy sums, variance of phase increments", "even and odd lengths, 1-D, both precisions, several modes, all sampling rates")
d("C18", "reference implementation of the interpolation, Nyquist round trips, tones through filters", "zero stuffing, convolution with independently computed root-raised-cosine, decimation; gain at tone frequencies; linearity across modes", "rational and downward ratios, odd/even taps, long signals, both power conventions")
d("C19", "the recurrence itself, bit by bit; complete periods; bit sources against per-mode sequences", "recurrence written in the oracle; primitivity of the order 31 polynomial by matrix powers", "all seeds, lengths beyond one period, missing and short lists")
d("C20", "definitions from the same samples", "log-sum-exp and max-log over an independent label table in double precision; direct GMI/MI sums; direct SNR", "extreme SNRs, outliers, absent points, modes of different SNR")
d("C21", "definition of each stage and composition of stages", "level sets, half-step bound, monotonicity, odd symmetry; formulas for clipper, modulator, noise power", "input scale, dtypes, modes of different power, values exactly on thresholds")
d("C22", "explicit windows by index arithmetic", "python loops over indices", "all lengths around the window size, end policies, axes, layouts")
d("C23", "the same problem in both precisions", "comparison with tolerance of single precision; ties excluded explicitly; types and shapes", "dtype promotions in a branch only some arguments reach; accumulation over 10^5 samples")
d("C24", "dictionary of patterns", "averages per pattern recomputed from positions; one index per pattern", "partial selections including the edges, absent patterns, more than 65535 occurrences")
d("C25", "known impairment applied, correction judged against the unimpaired signal", "moments of the output; equality with the corrected clean signal; analytic inverse", "per-mode impairments, single precision, 1-D")
d("C26", "curves against exact integrals and against the library's own channel", "product form, angular integral, Gauss-Hermite; binomial confidence at 6 sigma", "whole SNR range and every order, not a plot at a few points")
d("C27", "end-to-end blind link", "both streams' SER against the undistorted channel; own FIR of the returned taps", "any rotation, delay, tap count, methods in one or two stages")
d("C28", "position by position", "Fraction arithmetic for the frame geometry; components from their bits", "ratios up to a few hundred symbols per frame, unequal lengths, PSK/QAM mixes")
d("C29", "the noise itself (output minus input)", "power, mean, circularity, whiteness, independence, kurtosis at 7 sigma", "oversampling, power, dtype and mode combinations; freshness between calls")
d("C30", "files written by the check in every layout, import compared", "what was written", "port maps, row/column, single variables, distractors, normalisation per mode")
