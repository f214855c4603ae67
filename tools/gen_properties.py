import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every complex FFT entry point computes the DFT",
 "For every length n >= 1 and every complex input x, a forward FFT that reports success leaves X[k] = sum_j x[j]*exp(-2*pi*i*j*k/n) in bin k, whichever entry point computes it: the default engine, each selectable strategy (including radix-4 and mixed radix), a length plan, the platform-dispatched engine, or the fixed-size kernels. Power-of-two and non-power-of-two lengths obey the same formula, for single and double precision.",
 ["inputs","configurations"],"all lengths n>=1, all complex data, all strategies/engines",
 "The tests compare a handful of lengths and data vectors against a reference; the twiddle/index algebra has to be right for every length, bin and strategy.",
 ["src/fft.rs","src/fft_kernels.rs","src/num.rs"],
 [("small kernels","src/fft_kernels.rs fft2/fft4/fft8/fft16"),("Stockham passes","src/fft.rs ScalarFftImpl::stockham_fft_with_threshold, fft_split_simd"),("Bluestein","src/fft.rs FftPlanner::get_bluestein, ScalarFftImpl::fft"),("radix-4","src/fft.rs ScalarFftImpl::fft_radix4, butterfly4"),("dispatch","src/fft.rs fft_with_strategy, fft_mixed_radix, FftPlan::fft")],
 ["FftImpl::fft","FftImpl::fft_with_strategy","FftPlan::fft","ScalarFftImpl::stockham_fft","fft8","fft16"])
p("C02","Inverse FFT is the scaled conjugate DFT and undoes the forward FFT",
 "For every length n >= 1 and complex data, a successful inverse FFT yields x[j] = (1/n)*sum_k X[k]*exp(+2*pi*i*j*k/n), so applying it after the forward FFT through any pair of in-place, split, vector or plan entry points returns the original samples.",
 ["inputs"],"all lengths and data, every inverse entry point",
 "Round-trip tests sample a few lengths; scaling and conjugation must be right for every length and on every entry point.",
 ["src/fft.rs"],[("conjugate-transform-conjugate-scale","src/fft.rs ScalarFftImpl::ifft, ifft_split, FftPlan::ifft"),("stack inverse","src/fft.rs ifft_inplace_stack")],
 ["FftImpl::ifft","FftPlan::ifft","FftImpl::ifft_split","ifft_vec"])
p("C03","Transform results do not depend on what the engine computed before",
 "The result of an FFT, real FFT, DCT or DST on a reused engine or planner equals the result a freshly created one gives for the same input, after any sequence of earlier transforms of any lengths, successful or failed. Caches and scratch buffers left by earlier calls never influence a result.",
 ["histories","inputs"],"all finite call histories on one engine/planner, followed by any transform",
 "Tests create a fresh engine per transform or repeat one length; the space of call histories (larger then smaller lengths, errors in between) is unbounded.",
 ["src/fft.rs","src/rfft.rs","src/dct.rs","src/dst.rs"],
 [("scratch take/resize/slice","src/fft.rs stockham_fft_with_threshold, ScalarFftImpl::fft (Bluestein), fft_strided_alloc"),("twiddle caches keyed by length","src/fft.rs FftPlanner::get_twiddles/get_bluestein; src/rfft.rs RfftPlanner; src/dct.rs DctPlanner; src/dst.rs DstPlanner")],
 ["FftImpl::fft","RfftPlanner::rfft","DctPlanner","DstPlanner"],
 [("FftPlanner","cached tables and growable scratch buffers reused between calls","src/fft.rs"),("DstPlanner","cached sine tables and scratch","src/dst.rs")])
p("C04","Invalid FFT arguments are reported as errors and leave data untouched",
 "For every combination of buffer lengths and strides, a complex FFT entry point either succeeds or returns the documented error: empty input, mismatched buffer or plan lengths, zero or non-dividing stride. It never panics or loops, and when it rejects the arguments the caller's data is unchanged.",
 ["inputs"],"all buffer lengths, strides, plan sizes and strategies, including 0 and 1",
 "The argument space (lengths x strides x plans x strategies) is unbounded; tests try a few error cases and never check that the data survives.",
 ["src/fft.rs","src/ndfft.rs"],[("argument validation","src/fft.rs FftImpl for ScalarFftImpl, FftPlan, fft_mixed_radix"),("degenerate sizes","src/fft.rs stockham_fft_with_threshold match on n, factorize")],
 ["FftImpl methods","FftPlan methods","batch","multi_channel"])
p("C05","Strided FFTs transform exactly the strided samples and nothing else",
 "A strided FFT or inverse FFT with stride s over n samples leaves at positions 0, s, 2s, ... the transform of the samples gathered from those positions and leaves every other element of the buffer unchanged; the out-of-place form reads with the input stride and writes only at multiples of the output stride. The caller's initial scratch contents do not matter.",
 ["inputs"],"all buffer lengths, strides, scratch contents and data",
 "Frame conditions quantify over every untouched element for every stride; tests compare a few outputs.",
 ["src/fft.rs"],[("gather/transform/scatter","src/fft.rs fft_strided, ifft_strided, *_strided_alloc, *_out_of_place_strided")],
 ["FftImpl::fft_strided","FftImpl::ifft_strided","fft_out_of_place_strided"])
p("C06","Out-of-place, vector and split-array FFTs agree with the in-place FFT",
 "For every length and data, the out-of-place, vector-returning, split real/imaginary, complex-vector and batched/multi-channel forms of the FFT and inverse FFT return exactly the transform the in-place form computes for each item, preserve their inputs, and process every item independently and in order.",
 ["inputs"],"all lengths, data, batch sizes and per-item lengths",
 "Equality has to hold for every length and batch shape, including SIMD remainder lengths; tests sample some.",
 ["src/fft.rs","src/num.rs"],[("default methods","src/fft.rs FftImpl::fft_out_of_place, fft_split"),("split kernels","src/fft.rs fft_split_simd (f32,f64)"),("batch loops","src/fft.rs batch, batch_inverse, multi_channel, multi_channel_inverse")],
 ["fft_out_of_place","fft_split","fft_vec","batch","multi_channel"])
p("C07","2-D and 3-D FFTs transform each axis exactly once and validate the shape",
 "For every shape, the in-place 2-D (3-D) FFT on row-major data equals applying the 1-D FFT along each of the two (three) axes once, and the inverse likewise; a buffer or scratch whose length does not match the stated shape is rejected with an error before any element changes.",
 ["inputs"],"all shapes (including non-square and non-power-of-two), all data, all scratch lengths",
 "Row/column/depth index arithmetic must be right for every shape; tests use a few small, mostly square shapes.",
 ["src/ndfft.rs"],[("axis loops","src/ndfft.rs fft2d_inplace, fft3d_inplace"),("row-major flattening","src/ndfft.rs flatten_2d, flatten_3d")],
 ["fft2d_inplace","fft3d_inplace","flatten_2d","flatten_3d"])
p("C08","Real FFT equals the first half of the complex FFT and irfft inverts it",
 "For every even length n and real signal x, the real FFT writes exactly n/2+1 bins equal to bins 0..n/2 of the complex FFT of x, and the inverse real FFT of those bins returns x; odd or empty lengths and wrong buffer sizes are rejected with an error. This holds for cached-planner, direct, packed and fixed-size stack forms.",
 ["inputs"],"all even lengths, all real signals, every real-FFT entry point and planner state",
 "The pack/unpack recombination must hold for every bin pair and length; tests sample a few lengths.",
 ["src/rfft.rs"],[("recombination","src/rfft.rs rfft_direct/irfft_direct, rfft_packed/irfft_packed"),("twiddle tables","src/rfft.rs build_twiddle_table, RfftPlanner"),("stack","src/rfft.rs rfft_stack/irfft_stack")],
 ["RfftPlanner::rfft","RfftPlanner::irfft","RealFftImpl","rfft_stack","irfft_stack"])
p("C09","Fixed-size stack FFTs equal the heap FFT for every supported size",
 "For every power-of-two array size, the allocation-free forward stack FFT equals the DFT and the inverse stack FFT undoes it; unsupported sizes are reported as errors with the array unchanged.",
 ["inputs"],"all const sizes N and data",
 "Bit reversal plus butterflies must be right for every N; tests instantiate a few.",
 ["src/fft.rs"],[("bit reversal and butterflies","src/fft.rs fft_inplace_stack, ifft_inplace_stack")],
 ["fft_inplace_stack","ifft_inplace_stack"])
p("C10","STFT frames are the FFTs of windowed, zero-padded signal slices",
 "For every signal, window and hop > 0 whose frame positions fit in the address space, frame f of the STFT is the FFT of signal[f*hop + i]*window[i] for i in the window, with zeros past the end of the signal; the batch, streaming, parallel and single-frame forms agree, the stream yields exactly ceil(len/hop) frames, and hop 0, too few output frames or wrong frame lengths are rejected with an error.",
 ["inputs"],"all signal lengths, window lengths, hops (also hop > window), output sizes, stale output contents",
 "Frame boundaries and tail padding must be right for every length/hop combination; tests sample a few.",
 ["src/stft.rs"],[("framing","src/stft.rs stft, parallel, frame, StftStream::next_frame")],
 ["stft","parallel","frame","StftStream::next_frame"])
p("C11","Inverse STFT is window-normalised overlap-add",
 "For every set of frames, window and hop > 0 whose frame positions fit in the address space, the inverse STFT adds to output sample t the inverse-FFT frame samples times the window that cover t and divides by the sum of squared window values covering t whenever that sum exceeds 1e-8; the parallel form computes the same quotient. Starting from a zeroed output, inverting an STFT therefore returns the original sample wherever the squared-window sum exceeds 1e-8.",
 ["inputs"],"all frame counts, window shapes and lengths, hops, output lengths",
 "Normalisation and overlap indices must be right at every sample, including edges; tests check reconstructions of short signals.",
 ["src/stft.rs"],[("overlap-add and normalise","src/stft.rs istft, inverse_parallel, inverse_frame")],
 ["istft","inverse_parallel","inverse_frame"])
p("C12","Streaming inverse STFT emits the batch reconstruction chunk by chunk",
 "For 0 < hop <= window length, each pushed frame returns exactly hop samples, flushing returns the remaining window-minus-hop samples once and then nothing, and the concatenation equals the batch inverse STFT of the same frames; a frame of the wrong length is rejected and does not disturb the stream.",
 ["histories","inputs"],"all push/flush histories, window/hop pairs with 0 < hop <= window length",
 "Ring-buffer position arithmetic over unbounded push sequences; tests push a handful of frames.",
 ["src/stft.rs"],[("sliding buffer","src/stft.rs IstftStream::push_frame, flush")],
 ["IstftStream::push_frame","IstftStream::flush"],[("IstftStream","overlap buffer, normaliser, read and write positions","src/stft.rs")])
p("C13","DCT types I-IV compute their defining cosine sums",
 "For every length n, DCT-I (n >= 2) to DCT-IV compute their documented cosine sums at every output index (with the documented half-weighted end terms), and the planned, batched, multi-channel and fixed-size stack forms return the same values; DCT-III recovers n/2 times the input of DCT-II.",
 ["inputs"],"all lengths and data, every form",
 "Sums range over every index pair for every length; tests check a few sizes, mostly by round trip.",
 ["src/dct.rs"],[("direct sums","src/dct.rs dct1..dct4"),("FFT-based plan","src/dct.rs DctPlanner::plan_dct2, dct2_with_table"),("stack forms","src/dct.rs dct1/dct2_inplace_stack")],
 ["dct1","dct2","dct3","dct4","DctPlanner::plan_dct2","batch/multi_channel"])
p("C14","DST types I-IV compute their defining sine sums",
 "For every length n, DST-I to DST-IV compute their documented sine sums at every output index, and the planner, batched, multi-channel and fixed-size stack forms return the same values; DST-III recovers n/2 times the input of DST-II.",
 ["inputs"],"all lengths and data, every form",
 "As for the DCT: every index pair of every length; tests check a few sizes.",
 ["src/dst.rs"],[("direct sums","src/dst.rs dst1..dst4"),("planner tables","src/dst.rs DstPlanner"),("stack forms","src/dst.rs dst2/dst3/dst4 stack")],
 ["dst1","dst2","dst3","dst4","DstPlanner"])
p("C15","Discrete Hartley transform computes its defining cas sum",
 "For every length n, output k of the discrete Hartley transform is sum_j x[j]*(cos(2*pi*j*k/n)+sin(2*pi*j*k/n)), so applying it twice returns n times the input; batch and multi-channel forms apply it to each item independently.",
 ["inputs"],"all lengths and data",
 "Every index pair of every length; tests check sizes by sampling.",
 ["src/hartley.rs"],[("cas kernel","src/hartley.rs dht")],["dht","batch","multi_channel"])
p("C16","CZT and Goertzel evaluate the z-transform samples they promise",
 "The chirp-z transform returns exactly m points with X[k] = sum_n x[n]*a^(-n)*w^(n*k) (treating a = 0 as zero inverse), and the Goertzel detector returns the magnitude of the DFT of the input at bin floor(f*n/rate), rejecting empty input and non-positive rates.",
 ["inputs"],"all inputs, all m, all complex w and a; all rates and frequencies",
 "The recurrences must equal the closed-form sums for all lengths; tests check a couple of points.",
 ["src/czt.rs","src/goertzel.rs"],[("power recurrences","src/czt.rs czt_f32"),("second-order recurrence","src/goertzel.rs goertzel_f32")],["czt_f32","goertzel_f32"])
p("C17","Hilbert analytic signal doubles positive and zeroes negative frequencies",
 "For every power-of-two length, the analytic signal's spectrum equals the input's spectrum at DC and Nyquist, twice it on the positive bins and zero on the negative bins; empty and non-power-of-two inputs are rejected.",
 ["inputs"],"all power-of-two lengths and real inputs",
 "Tests only check the output length.",
 ["src/hilbert.rs"],[("spectral mask","src/hilbert.rs hilbert_analytic")],["hilbert_analytic"])
p("C18","Cepstral features follow their definitions",
 "The real cepstrum is the inverse FFT of the log magnitude spectrum; MFCC applies the requested number of triangular mel filters, which rise and fall linearly between consecutive band-edge bins and are zero elsewhere (a filter two of whose consecutive edges coincide contributes zero), takes logarithms and a DCT-II, and returns exactly the requested number of coefficients; its batch form equals per-frame application.",
 ["inputs"],"all frame lengths, sample rates, filter counts",
 "Filter edges and lengths depend on every parameter combination; tests check shapes for one.",
 ["src/cepstrum.rs"],[("pipeline","src/cepstrum.rs real_cepstrum, mel_filterbank, mfcc, mfcc_batch")],["real_cepstrum","mfcc","mfcc_batch"])
p("C19","Window functions return their closed-form samples",
 "For every length n >= 2 each window function returns n samples given by its closed form: Hann, Hamming and Blackman periodic (w[i]=w[n-i]), the others symmetric (w[i]=w[n-1-i]); the fixed-size stack forms give the same samples as the allocating forms.",
 ["inputs"],"all lengths and shape parameters",
 "Closed form, symmetry and end points must hold for every length; tests check a few values.",
 ["src/window.rs","src/window_more.rs"],[("closed forms","src/window.rs hann/hamming/blackman/kaiser and stack forms; src/window_more.rs")],["hann","hamming","blackman","kaiser","tukey","bartlett","bohman","nuttall"])
p("C20","Haar transform is exact pairwise average/difference and reconstructs",
 "For every even-length signal the Haar transform outputs pairwise averages and half differences and its inverse restores the signal, in heap, stack, batch and multi-level form; a multi-level decomposition of a signal whose length is divisible by 2^levels reconstructs it exactly, and with padding the reconstruction starts with the signal.",
 ["inputs"],"all signal lengths, level counts and batch shapes",
 "Reconstruction must hold for every length/level pair; tests use lengths 4 and 8.",
 ["src/wavelet.rs"],[("pair loops","src/wavelet.rs haar_forward/haar_inverse and stack forms"),("levels","src/wavelet.rs multi_level_forward/inverse")],["haar_forward","haar_inverse","haar_forward_multi","haar_inverse_multi","batch_forward"])
p("C21","Orthogonal wavelets filter with symmetric extension and invert away from edges",
 "For every even-length signal, each Daubechies/Symlet/Coiflet analysis step yields n/2 approximation and detail values that are the filter dot products over the signal extended by reflection at its end, and the matching synthesis step reproduces every sample at least one filter length away from the ends. Batch and multi-level forms apply the single-level step per item and level.",
 ["inputs"],"all even signal lengths and data, four wavelet families",
 "Tests only check the output length or that the error is smaller than the signal.",
 ["src/wavelet.rs"],[("analysis/synthesis filters","src/wavelet.rs db2/db4/sym4/coif1 forward and inverse"),("reflection","src/wavelet.rs reflect closures")],["db2_forward","db4_forward","sym4_forward","coif1_forward","*_inverse"])
p("C22","Complex layout conversions are lossless and order-preserving",
 "Converting between interleaved complex arrays and split real/imaginary storage, in either direction and through every conversion, preserves every component of every element in order, and mismatched lengths are refused rather than partially copied.",
 ["inputs"],"all lengths and bit patterns",
 "Element-wise identity over all lengths; tests use a few elements.",
 ["src/num.rs","src/fft.rs"],[("copies","src/num.rs copy_from_complex, copy_to_complex, ComplexVec, SplitComplex"),("fft re-exports","src/fft.rs complex32_to_split, split_to_complex32")],["ComplexVec","SplitComplex","copy_from_complex","copy_to_complex"])
p("C23","Complex arithmetic obeys the field definitions componentwise",
 "Complex addition, subtraction, negation, multiplication, the unit-circle exponential and the conversions from scalars compute the componentwise textbook formulas for all operands, and the operator forms agree with the method forms.",
 ["inputs"],"all operand values, single and double precision",
 "Identities over all reals; tests check single values.",
 ["src/num.rs"],[("Complex ops","src/num.rs impl Complex, impl Add/Sub/Mul/Neg")],["Complex::add","Complex::sub","Complex::mul","Complex::expi","operators"])
p("C24","Song identification follows names first, then content, for any history",
 "After any sequence of index and identify calls, identifying a file whose name is known returns the entry registered last for that name without reading the file; otherwise a file with the same bytes as a known one returns that one's identity, and an unknown file is registered under its own path so that later lookups by name or content find it. Failing to read a file registers nothing.",
 ["histories","inputs"],"all call histories, file names and contents (including chunk-boundary sizes)",
 "Lookups depend on the whole call history; tests make two or three calls.",
 ["src/media/index.rs"],[("name and hash maps","src/media/index.rs SongIndex::index_song, identify, hash_file")],["SongIndex::index_song","SongIndex::identify"],[("by_name, by_hash","last identity per file name and per content hash","src/media/index.rs")])
p("C25","Spectrogram colour mapping is clamped, monotone in grey and hits its endpoints",
 "For every non-NaN float input, including out-of-range values and infinities, a colour map returns the colour of the value clamped to [0,1] without panicking; grey is monotone from black to white, Fire and Rainbow run from black to white through their stops, and the 16-bit colour is exactly 257 times the 8-bit one.",
 ["inputs"],"all 2^32 float values (NaN excluded from value claims) and all palettes",
 "2^32 inputs per palette; tests check three points.",
 ["src/visual/spectrogram.rs"],[("interpolation","src/visual/spectrogram.rs map_color_u8, lerp_u8, rainbow_color_u8, map_color_u16")],["map_color_u8","map_color_u16","color_from_magnitude_u8"])
p("C26","Decibel scaling and logarithmic binning stay in range and lose no bin",
 "Decibel conversion never returns less than the floor and never more than 0 dB for magnitudes up to the maximum, the 0..1 scaling stays in [0,1]; logarithmic binning of a column no longer than the bin range maps bin 0 to pixel 0, is monotone, stays within the last pixel, and each output pixel is the mean of exactly the bins mapped to it (0 if none).",
 ["inputs"],"all magnitudes, floors, bin counts",
 "Ranges over all float magnitudes and all bin counts; tests check one frame.",
 ["src/visual/spectrogram.rs"],[("dB and log bins","src/visual/spectrogram.rs magnitude_to_db, db_scale, map_bin_to_pixel, log_scale_bins"),("magnitudes","src/visual/spectrogram.rs stft_magnitudes")],["magnitude_to_db","db_scale","log_scale_bins","stft_magnitudes"])
p("C27","Build configuration enables exactly the features the machine supports",
 "For every architecture, CPU flag set, core count and extra feature list, the build helper enables the SIMD feature matching the best supported instruction set of that architecture and no other, enables parallelism exactly when there is more than one core, keeps every requested extra feature, and passes the same feature flags to the build, test, benchmark, bench-library and readme commands.",
 ["configurations"],"all architectures, flag subsets, core counts and extra feature lists",
 "2^flags x architectures x cores combinations; tests try a few.",
 ["xtask/src/lib.rs"],[("compute_config","xtask/src/lib.rs compute_config and command builders")],["compute_config"])
p("C28","The parallel-FFT decision honours overrides and never changes results",
 "A non-zero threshold override (then the environment-derived threshold) alone decides whether a length is transformed in parallel, and parallel processing starts exactly at the threshold; sequential and parallel processing of the same data give the same transform.",
 ["configurations","inputs"],"all override values, lengths and data",
 "Override x length space is unbounded, and process-wide settings are only sampled by tests.",
 ["src/fft.rs"],[("decision","src/fft.rs should_parallelize_fft, set_parallel_fft_*"),("parallel branches","src/fft.rs ifft, fft_parallel")],["set_parallel_fft_threshold","fft_parallel","ifft_parallel"],None,"should_parallelize_fft is private")
p("C29","Float rounding error of every transform stays within a stated bound",
 "For every input of bounded magnitude, the floating-point result of a transform differs from the exact transform by at most a constant times machine epsilon times log2(n) times the input norm.",
 ["inputs"],"all finite inputs, all lengths",
 "Error bounds quantify over all float inputs; tests use loose tolerances on samples.",
 ["src/fft.rs","src/rfft.rs"],[("twiddle recurrence and butterflies","src/fft.rs get_twiddles, fft_split_simd")],["FftImpl::fft"])
p("C30","Parallel transforms are free of data races under every schedule",
 "Under every thread schedule, the parallel FFT, STFT and inverse STFT forms access each element from one thread at a time and produce the same result.",
 ["schedules"],"all rayon schedules",
 "Schedules are not controlled by the tests.",
 ["src/fft.rs","src/stft.rs"],[("rayon iterators","src/fft.rs fft_parallel; src/stft.rs parallel, inverse_parallel")],["fft_parallel","stft::parallel"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
