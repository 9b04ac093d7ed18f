PROPS = []
IRN = "Value-flow analysis of the library's own inlined LLVM IR, regenerated from /repo's headers on every run. Machine integers are treated as mathematical integers and floating-point arithmetic as exact real arithmetic (rounding and overflow are out of scope); trusts clang 18's front end and the listed normalisation passes, and the term normaliser in lib/."
def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    inc = lambda f: f if f.startswith(("test", "include")) else "include/dspbb/" + f
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                  "anchors": {"files": [inc(f) for f in files], "mechanism": [{"name": n, "where": inc(w)} for n, w in mech]},
                  "technique": technique, "note": note, "na": na})

P("E01", "Element-wise arithmetic computes exactly the stated element for every index",
  "Adding, subtracting, multiplying or dividing signals, views and scalars (as functions writing into an output, as operators, and as compound assignments) yields a result with as many elements as the operands, whose every element is exactly that operation applied to the same-index operand elements or the scalar in the written order, for real, complex and mixed types. Nothing outside the result is written, and the result may be one of the operands.",
  ["inputs", "configurations"], "every length, every element value, every operand/scalar/operator form, element type combination and vector width",
  "the tests use a few fixed lengths and types; the vectorised body and the scalar tail are only correct together for every length modulo the vector width, on every instruction set",
  ["Primitives/SignalArithmetic.hpp", "Kernels/Numeric.hpp", "Kernels/Functors.hpp"],
  [("vectorised transform kernels", "Kernels/Numeric.hpp"), ("operand-order functors", "Kernels/Functors.hpp"), ("operators", "Primitives/SignalArithmetic.hpp")],
  "value-flow analysis of LLVM IR: affine write-set tiling + normal-form equality of stored values", IRN)
P("E02", "Element-wise math functions apply the named function to every element",
  "Each element-wise mathematical function (magnitude, phase, real/imaginary part, conjugate, logarithms, exponentials, powers, roots, trigonometric, hyperbolic, error and gamma functions) returns or fills a result of the operand's length in which element i is the named function of operand element i and of nothing else. This holds for real and complex element types and when the output is the input.",
  ["inputs", "configurations"], "every length, value, function, element type and vector width",
  "the tests sample a handful of values per function; a wrong function on one type, on the vector body only or on the tail only is invisible to them",
  ["Math/Functions.hpp", "Kernels/Math.hpp", "Kernels/Numeric.hpp"],
  [("function wrappers", "Math/Functions.hpp"), ("scalar/vector function overloads", "Kernels/Math.hpp")],
  "value-flow analysis of LLVM IR with the elementary functions uninterpreted", IRN + " Accuracy of the underlying elementary functions is not addressed.")
P("E03", "Mismatched sizes are rejected before any output is written",
  "Every element-wise arithmetic operation and every element-wise math function that is given operands or an output of differing lengths fails with an exception before it has written any output element, also in release builds. Operands of equal length are never rejected.",
  ["inputs"], "all combinations of lengths, all operations and operand forms",
  "a test exercises one mismatching pair for a few operations; a missing or late check in any other overload is silent memory corruption in release builds",
  ["Primitives/SignalArithmetic.hpp", "Math/Functions.hpp"],
  [("size check in front of each kernel call", "Primitives/SignalArithmetic.hpp")],
  "path-condition analysis: returns and stores unreachable under unequal sizes", IRN)
P("R01", "Reductions combine every sample exactly once",
  "The sum, sum of squares, dot product, maximum and minimum of a signal of any length combine every sample exactly once (the extrema inspect every sample) and nothing else, starting from zero. The dot product of complex signals is the sum of the first operand times the conjugate of the second.",
  ["inputs", "configurations"], "every length (in particular every remainder modulo the unrolled vector block), every element type and vector width",
  "the reduction dispatches on the bits of the length; tests cover a few lengths, so a sample dropped or repeated for one remainder goes unnoticed",
  ["Kernels/Numeric.hpp", "Math/Statistics.hpp", "Math/DotProduct.hpp"],
  [("unrolled reduction kernels", "Kernels/Numeric.hpp"), ("dot product", "Math/DotProduct.hpp")],
  "recurrence solving on LLVM IR: accumulation loops proved to be folds tiling [0,n)", IRN + " Summation order is not fixed.")
P("R02", "Statistics equal their textbook formulas",
  "Mean, mean square, RMS, norm, the central moments from the first order up, standardized moments, variance, standard deviation, skewness, kurtosis, their bias-corrected variants, covariance and correlation equal their textbook formula over all samples of the signal, both with the mean computed internally and with an explicitly given mean. Mean and mean square of an empty signal are zero.",
  ["inputs"], "every real signal of any length, every order of moment, every explicit mean",
  "tests compare a few small signals for a few orders; sign and normalisation mistakes that need an unusual order, an explicit mean or a special length are not reached",
  ["Math/Statistics.hpp", "Kernels/Numeric.hpp"],
  [("moment switch and bias corrections", "Math/Statistics.hpp")],
  "recurrence solving on LLVM IR + rational-function normal forms compared with the formulas", IRN + " Moment orders above four are checked for 5 to 8.")
P("F02", "Spectrum shifts rotate exactly and undo each other",
  "FftShift of a spectrum of any length n (odd or even, in place or out of place, signal or view) moves the zero-frequency bin to index floor(n/2) by rotating all bins by ceil(n/2); IfftShift rotates by floor(n/2), so that applying one after the other restores every bin. No bin is lost or duplicated.",
  ["inputs", "configurations"], "every length, every element type, in place and out of place",
  "tests use one even and one odd length out of place; in-place use through views and other lengths are not sampled",
  ["Math/FFT.hpp"], [("BasicShift", "Math/FFT.hpp"), ("FftShift/IfftShift", "Math/FFT.hpp")],
  "index-mapping analysis of LLVM IR: bulk copies as affine segments, rotation amount as normal form", IRN)
P("F01", "FFT wrappers transform the stated data with stated direction, length and scale",
  "Fft and Ifft of signals and views, as functions returning a spectrum or filling an output, for real and complex data, half and full spectra, hand the transform exactly the operand's samples and the operand's length, along the whole signal, in the forward direction with unit scale for Fft and the backward direction with scale 1/n for Ifft. The half spectrum of n real samples has floor(n/2)+1 bins; the full spectrum's upper half is the conjugate mirror of the lower half; an inverse to a real signal has the parity the caller asked for.",
  ["inputs", "configurations"], "every length, element type, spectrum form and call form",
  "round-trip tests cancel a wrong scale or direction, and sample one odd and one even length only",
  ["Math/FFT.hpp"], [("transform wrappers", "Math/FFT.hpp"), ("half/full spectrum expansion", "Math/FFT.hpp")],
  "value-flow analysis of LLVM IR with the FFT kernel replaced by an opaque declaration: call arguments and result mapping in normal form", IRN + " The third-party PocketFFT kernel itself is trusted.")
P("W01", "Window generators produce their defining formula at every sample",
  "Every window generator (Hamming, flat top, rectangular, triangular, Blackman, Blackman-Harris, Gaussian, Kaiser, Lanczos), whether filling a given signal or view, returning a new signal, or used as a window functor, yields at sample i of n (n at least 2) the window's defining symmetric formula with the argument running from one end of the window to the other over i/(n-1), for real and complex element types. CoherentGain is the mean of a window and EnergyGain its mean square.",
  ["inputs", "configurations"], "every length of at least two samples, every window parameter, every element type and call form",
  "tests check symmetry and peak of windows of one length; coefficients, end points and other lengths or parameter values are not pinned",
  ["Filtering/Windowing.hpp", "Generators/Spaces.hpp"], [("window functions", "Filtering/Windowing.hpp"), ("functors", "Filtering/Windowing.hpp"), ("LinSpace", "Generators/Spaces.hpp")],
  "index-mapping analysis of LLVM IR: successive passes composed to one formula per sample, compared in normal form", IRN + " The modified Bessel function is uninterpreted.")
P("G01", "Waveform, chirp and spacing generators follow their formula at every sample",
  "Sine, sawtooth, PWM and square waves and chirps yield at sample i of the output their waveform evaluated at the phase 2*pi*(frequency integrated from 0 to i/sampleRate) plus the initial phase, periodic in the phase also for negative phases; the frequency of a chirp runs linearly from the start to the end frequency over the length of the signal. LinSpace yields start + i*(end-start)/d with d = n-1 if the end is included and n otherwise, LogSpace the base raised to the same exponents. This holds when filling a given signal or view and when returning a new one, for real and complex elements.",
  ["inputs", "configurations"], "every length (two or more samples for spaces), sample rate, frequency, phase, tilt, fill ratio, start, end, base and element type",
  "tests sample one frequency and rate; a phase sign, end-point or chirp-rate mistake needs other parameters to show",
  ["Generators/Waveforms.hpp", "Generators/Spaces.hpp"], [("GenericWave and GenericChirp", "Generators/Waveforms.hpp"), ("LinSpace and LogSpace", "Generators/Spaces.hpp")],
  "index-mapping analysis of LLVM IR: value per sample index as a term, compared with the formula", IRN)
P("C01", "Convolution and overlap-add forms hand the kernel the right operands and range",
  "Convolution and OverlapAdd in every form (explicit offset, full, central; filling an output or returning a result; with or without an explicit chunk size) run the convolution kernel exactly once on both whole operands and the whole output, with offset 0 for the full, min(n,m)-1 for the central and the given offset for the explicit form; an output is cleared first unless the caller asks to accumulate, and a returned result starts from zeros. ConvolutionLength is n+m-1 for full and |n-m|+1 for central convolutions, 0 when an operand is empty; returned results have that length.",
  ["inputs", "configurations"], "all operand lengths, offsets, chunk sizes and flags, element type combinations",
  "tests use a few lengths and mostly the default flags; a wrong flag, offset or length on one form or on one side of the kernel threshold stays invisible",
  ["Math/Convolution.hpp", "Math/OverlapAdd.hpp"], [("Convolution forms", "Math/Convolution.hpp"), ("OverlapAdd forms", "Math/OverlapAdd.hpp"), ("ConvolutionLength", "Math/Convolution.hpp")],
  "call-argument analysis of LLVM IR with the kernels opaque: arguments on every path compared as terms", IRN + " Operands are non-empty for the central form.")
P("C02", "The direct convolution kernel adds exactly the overlapping products",
  "The convolution kernel used when the shorter operand has at most 32 samples sets (or, when accumulating, adds to) output j, for the outputs requested from an offset n of the full convolution, exactly the sum of u[k]*v[n+j-k] over all k for which both samples exist, for either order of the operand lengths, and writes nothing outside the output.",
  ["inputs", "configurations"], "all operand lengths, offsets and output lengths within the full convolution, real and complex element types, every vector width remainder",
  "the index arithmetic of partial overlaps, offsets and vector tails has many corner combinations of which tests visit a few",
  ["Kernels/Convolution.hpp", "Kernels/Numeric.hpp", "Utility/Interval.hpp"], [("ConvolutionSlide", "Kernels/Convolution.hpp"), ("interval arithmetic", "Utility/Interval.hpp")],
  "affine loop-nest extraction from LLVM IR and comparison of the index relation with the definition", IRN + " The extracted index relation is compared for all sampled lengths up to 11 and offsets up to 18; data values stay uninterpreted.")
P("V01", "Views and signals expose exactly the stored range they name",
  "Element access and traversal of signals and views (begin, end, reverse iterators, front, back, indexing, data, size, size_bytes, empty) designate exactly the stored samples; a view built from a signal, an iterator pair, iterator and size, pointers, or another view (AsView, AsConstView, copying) spans exactly that range; first(n), last(n) and subsignal(offset[, size]) span exactly the named sub-range.",
  ["inputs"], "every offset, length and element type within range",
  "tests use contiguous integers and one offset; an off-by-one in an end pointer or a byte/element mix-up for one element type stays unseen",
  ["Primitives/Signal.hpp", "Primitives/SignalView.hpp"], [("view construction and sub-ranges", "Primitives/SignalView.hpp"), ("element access", "Primitives/Signal.hpp")],
  "pointer-term analysis of LLVM IR: address and length of the returned range as terms, compared with the named range", IRN + " Preconditions (non-empty, in range) are assumed.")
P("V02", "Editing and building signals yields exactly the stated sequence of samples",
  "append, prepend, insert, erase, push_back, resize, reserve, clear, extract_front and extract_back of a signal leave (and, for extraction, return) exactly the stated sequence: untouched samples keep their order, inserted ones keep theirs, extraction splits the signal without loss, and the other operand is unmodified; constructing or assigning from a count, pointer, range, signal or signal of another element type yields exactly that sequence.",
  ["inputs", "histories"], "every signal length, position, count and element type within range",
  "tests edit one three-element signal; the order of copy and erase, a boundary position or a partial overlap of range ends can differ elsewhere",
  ["Primitives/Signal.hpp"], [("editing operations", "Primitives/Signal.hpp"), ("constructors", "Primitives/Signal.hpp")],
  "effect analysis of LLVM IR with std::vector opaque: the container operations, their positions and ranges as terms, are composed abstractly over labelled contents", IRN + " std::vector itself is trusted; a signal inserted into itself is outside the property.")
P("N01", "Rational arithmetic, comparison and rounding are exact",
  "Addition, subtraction, multiplication and division (with rationals and integers on either side, and as compound assignment), increment and decrement, construction, floor, ceil, frac and all six comparisons of Rational give exactly the value of the operation on rational numbers, for negative operands too, and rational results are in lowest terms with a positive denominator; conversion to floating point is the quotient.",
  ["inputs"], "every numerator, denominator and integer operand of either sign for which no intermediate overflows",
  "tests use a few small mostly positive operands; sign handling and reduction fail only for particular sign and divisor combinations",
  ["Math/Rational.hpp"], [("operators", "Math/Rational.hpp"), ("floor, ceil, frac", "Math/Rational.hpp")],
  "term extraction from LLVM IR with gcd/lcm uninterpreted calls given their meaning, compared with exact rational arithmetic", IRN)
P("N02", "Interval operations are the set operations they name",
  "Shifting, size, equality, IsDisjoint, Intersection, EncompassingUnion and Union of intervals [first, last) are the corresponding operations on sets of points: intervals are equal exactly when both bounds are, disjoint exactly when they share no point, the intersection has exactly the shared points, the hull is the smallest interval holding both and the union exists exactly when they overlap.",
  ["inputs"], "all bounds, including touching, nested and equal intervals",
  "the intervals have no unit tests of their own; boundary relations are many",
  ["Utility/Interval.hpp"], [("interval operations", "Utility/Interval.hpp")],
  "term extraction from LLVM IR, compared with the set operation", IRN)
CTW = "Every witness is a single statement type-checked by clang against the current headers; the deciding step is the compiler's overload resolution and type checking, nothing is run."
P("D01", "Signals of different domains never combine",
  "Every binary operation on signals and views (arithmetic operators and functions, compound assignment, math functions with an output, dot product, convolution, overlap-add, statistics of two signals, FFT shifts, FIR and IIR filtering, polyphase resampling, assignment, append and insert) is accepted when its operands have one common domain and rejected at compile time when their domains differ; transforms accept only the domain they are defined on.",
  ["inputs", "configurations"], "every operation, every operand position, signals and views, all four domains",
  "a test that compiles cannot show that a wrong program is rejected",
  ["Primitives/Signal.hpp", "Primitives/SignalView.hpp", "Primitives/SignalTraits.hpp", "Primitives/SignalArithmetic.hpp", "Math/Convolution.hpp"],
  [("domain constraints", "Primitives/SignalTraits.hpp"), ("operations", "Primitives/SignalArithmetic.hpp")],
  "compile-fail and compile-pass witnesses over the full operation x operand kind x domain matrix", CTW)
P("D02", "Read-only operands can never be written through the library",
  "A const signal or a view of const samples can be passed wherever an operation reads, is rejected wherever an operation writes (output arguments, compound assignment, mutable access, in-place operations, filter state), no conversion yields a mutable view from it, and mutable signals and views are accepted as outputs.",
  ["inputs", "configurations"], "every operation with an output, every accessor and conversion, signals and views",
  "a test that compiles cannot show that a wrong program is rejected",
  ["Primitives/Signal.hpp", "Primitives/SignalView.hpp", "Primitives/SignalTraits.hpp", "Math/Functions.hpp"],
  [("view conversions", "Primitives/SignalView.hpp"), ("mutability traits", "Primitives/SignalTraits.hpp")],
  "compile-fail and compile-pass witnesses over the operation x operand constness matrix", CTW)
P("D03", "Results have the element type, domain and ownership their operands imply",
  "The result of each operation that returns a signal is an owning signal whose element type is that of the arithmetic on the operands' elements (mixed precision promotes, complex absorbs real, magnitude and phase are real) and whose domain is the operands' domain; transforms map time to frequency and back; statistics return the element type; the signal traits classify signals, views, const views and foreign types correctly.",
  ["inputs", "configurations"], "all combinations of real and complex, single and double precision, signal and view operands",
  "tests use mostly float signals of one kind, and a silently narrowed or view result still compares equal",
  ["Primitives/SignalTraits.hpp", "Primitives/SignalArithmetic.hpp", "Math/Functions.hpp", "Math/Convolution.hpp", "Math/FFT.hpp", "Utility/TypeTraits.hpp"],
  [("type promotion", "Utility/TypeTraits.hpp"), ("signal traits", "Primitives/SignalTraits.hpp")],
  "type-level encoding: static_assert witnesses on the type of each expression", CTW)
SPN = IRN + " Storage-dependent code (vectors, sorting, resizing) is decided by partial evaluation: driver programs of fixed sizes with symbolic contents are unrolled and simplified to straight-line terms by the compiler, so the claim covers the sizes enumerated in the evidence and every value."
P("N03", "Resizing, regrouping and copying polynomials keep the roots they should",
  "Resizing a factored polynomial keeps the roots that still fit (real and complex ones separately, in order) and makes the new ones zero, regrouping keeps the number of roots asked for, and copies, moves and assignments of factored polynomials have their own storage with the same roots, leaving the source of a copy unchanged; resizing a Polynomial keeps its low-order coefficients and makes the new ones zero.",
  ["inputs", "history"], "every sequence of sizes before and after (growing, shrinking, exchanging real for complex roots), every root value",
  "the roots live in one shared allocation, so each operation moves the other kind of roots; tests check a few sizes where the moves do not overlap",
  ["Math/Polynomials.hpp"], [("FactoredPolynomial storage", "Math/Polynomials.hpp")],
  "partial evaluation of fixed-size programs in LLVM IR to straight-line terms; normal forms compared with the specified contents", SPN)
P("P01", "Polynomials evaluate to their definition in every representation",
  "Evaluating a Polynomial at a real or complex point gives the sum of its coefficients times powers of the point, evaluating a factored polynomial gives the product of (x - root) over its real roots and both members of every complex pair, and expanding a factored polynomial gives exactly the coefficients of that product, leading coefficient one.",
  ["inputs"], "every coefficient, root and argument; degrees up to the enumerated bound in each mixture of real and complex roots",
  "tests evaluate two or three polynomials of one shape at a few points",
  ["Math/Polynomials.hpp"], [("evaluation and expansion", "Math/Polynomials.hpp")],
  "partial evaluation of fixed-size programs in LLVM IR; rational-function normal forms compared", SPN)
P("I02", "Every representation of a linear system is the same transfer function",
  "A zero-pole-gain system evaluates to gain times the product over its zeros divided by the product over its poles; converting it to a transfer function or to a cascade of second-order sections gives a system that evaluates to the same value everywhere and has the same order; transfer functions and cascades evaluate to the quotient and product of their polynomials, whatever the order of each section.",
  ["inputs", "configurations"], "every root, gain, coefficient and argument; root counts up to the enumerated bound, real and complex, including unpaired, repeated, zero and mixed-sign real roots",
  "the pairing of roots into sections depends on their signs, counts and order; tests cover one or two systems at a few frequencies",
  ["LTISystems/Systems.hpp", "Math/Polynomials.hpp"], [("conversions", "LTISystems/Systems.hpp")],
  "partial evaluation of the conversions in LLVM IR; rational-function normal forms over symbolic roots compared", SPN)
P("I03", "Every recursive filter realisation computes the same difference equation",
  "Feeding samples from a fresh or reset state through direct form I, direct form II or the cascaded form, one by one, in ranges, in chunks, in place, or with Filter (returning or writing, signals or views, streaming over several calls) produces exactly the output of the difference equation of the transfer function or section cascade, for any numerator and denominator sizes, any leading coefficient and any state of at least the system's order; a copied state continues independently, and when the system is replaced between samples by another of the same or another size, direct form I and the cascade go on from the inputs and outputs so far.",
  ["inputs", "history"], "every coefficient and sample, every split of the input into calls, filter and state orders up to the enumerated bound",
  "tests compare impulse responses of two or three normalised filters with equal numerator and denominator sizes and exactly matching state order",
  ["Filtering/IIR/Realizations.hpp", "Filtering/IIR/Filter.hpp", "LTISystems/Systems.hpp"], [("realisations", "Filtering/IIR/Realizations.hpp"), ("Filter overloads", "Filtering/IIR/Filter.hpp")],
  "partial evaluation of the first steps from the zero state in LLVM IR; normal forms compared with the difference equation", SPN + " Outputs are followed for the first three or four samples, which exercise every state shift of the enumerated orders.")
P("I04", "Frequency transformations map the response along the stated frequency map",
  "The bilinear transform (with and without prewarping) of a continuous system has, at every point, the original's response at k(z-1)/(z+1); the allpass maps of discrete systems give the original's response at the mapped point, with correct gain and padding roots; the halfband-to-lowpass, highpass, bandpass and bandstop maps send their band edges to the prototype's edge, the pass band to its pass band and 0 and Nyquist to the right ends; root transformation keeps every root's image, real or paired.",
  ["inputs"], "every root, gain, sample rate, prewarp frequency, band edge and map coefficient, all mixtures of real and complex roots up to the enumerated counts, unequal numbers of zeros and poles",
  "tests check magnitudes of a few designed filters with tolerances in the percents",
  ["LTISystems/DiscretizationTransforms.hpp", "Filtering/IIR/BandTransforms.hpp", "Math/RootTransforms.hpp"],
  [("bilinear transform", "LTISystems/DiscretizationTransforms.hpp"), ("allpass maps", "Filtering/IIR/BandTransforms.hpp"), ("root transformation", "Math/RootTransforms.hpp")],
  "partial evaluation in LLVM IR; response of the result at a symbolic point compared with the original response at the mapped point", SPN)
P("I05", "Butterworth and Chebyshev prototypes have their defining magnitude",
  "For every order and ripple the analog Butterworth and Chebyshev (type 1 and 2) prototypes have exactly the squared magnitude that defines them (1/(1+w^2N), 1/(1+e^2 T_N(w)^2), its inverse form), the defined gain at zero frequency, the right number of real and paired roots, and all poles in the left half plane.",
  ["inputs"], "every ripple and frequency; orders up to the enumerated bound, odd and even",
  "tests check ripple bounds of a few designs numerically; an error in one root of one parity or order shifts the response by less than their tolerances",
  ["Filtering/IIR/Butterworth.hpp", "Filtering/IIR/Chebyshev.hpp"],
  [("prototypes", "Filtering/IIR/Chebyshev.hpp")],
  "partial evaluation at fixed orders with symbolic ripple; identity of the squared magnitude with the defining polynomial decided on the extracted terms", SPN)
P("S01", "A filter spec is refused exactly when its edges are out of order or range",
  "Every descriptor setter that takes band edges throws std::invalid_argument when an edge lies outside [0, 1] or the edges are not in nondecreasing order, and returns a descriptor otherwise; setters of weights, ripples, windows and grid sizes accept any value, whatever other setters were called before.",
  ["inputs", "configurations"], "every edge value, every descriptor type of FIR and IIR designs, every setter called before",
  "tests try one or two out-of-range values for some descriptors",
  ["Filtering/FilterUtility.hpp", "Filtering/IIR/Descs.hpp", "Filtering/FIR/Descs.hpp"], [("validation", "Filtering/FilterUtility.hpp"), ("setters", "Filtering/FIR/Descs.hpp")],
  "path conditions of the throw in LLVM IR compared with the predicate that must guard it, over all orderings of the edges around 0, 1 and each other", IRN)
P("S02", "Descriptor setters may be chained in any order and never disturb other settings",
  "After any sequence of setter calls on any filter descriptor, each setting holds exactly what the last setter of it was given (edges, ripples, weights, grid sizes, windows as functions or as ready made signals, responses), and every setting not set holds its documented default.",
  ["inputs", "histories"], "every value, every descriptor type, every order of up to three (FIR windows) or all setters including repeats",
  "tests chain setters in one order; a swapped or dropped field in one of the thirty hand written copies only shows for the order that passes through it",
  ["Filtering/IIR/Descs.hpp", "Filtering/FIR/Descs.hpp"], [("FIR descriptors", "Filtering/FIR/Descs.hpp"), ("IIR descriptors", "Filtering/IIR/Descs.hpp")],
  "partial evaluation in LLVM IR of every setter sequence; the value flowing into each field compared with the argument or default", SPN)
P("I06", "FIR designs follow the formulas of their method for every edge and window",
  "A windowed low-pass, high-pass, band-pass, band-stop, Hilbert or arbitrary FIR design is exactly the truncated ideal impulse response times the window, for window functions and window signals alike; the mirrored, complementary and shifted filters and the half-band-to-Hilbert conversions are exactly the coefficient maps they name; a least squares design evaluates the desired response and weight of its bands at every point of its frequency grid and solves exactly the normal equations of that grid.",
  ["inputs", "configurations"], "every cutoff, weight, window value and coefficient; tap counts up to the enumerated bound, both parities; every frequency within the bands",
  "tests design a few filters and look at their gain in bands; an index off by one at the middle tap, one parity, or a response wrong inside a transition band passes",
  ["Filtering/FIR.hpp", "Filtering/FIR/Windowed.hpp", "Filtering/FIR/LeastSquares.hpp", "Filtering/FIR/BandTransforms.hpp", "Filtering/FIR/Descs.hpp"],
  [("windowed designs", "Filtering/FIR/Windowed.hpp"), ("least squares designs", "Filtering/FIR/LeastSquares.hpp"), ("band transforms", "Filtering/FIR/BandTransforms.hpp")],
  "partial evaluation in LLVM IR of every design at fixed tap counts with symbolic edges and windows, the terms of each coefficient decided against the defining formula; the Eigen solver is replaced by a typed stand-in that hands out the assembled system", SPN)
P("I07", "FIR filtering by blocks, by parts and by streaming equals one convolution",
  "Every form of Filter, Convolution and OverlapAdd (central, full, any part at an offset, in place or returned, any chunk size, accumulating or not, real or complex) gives exactly the samples of the discrete convolution of its operands, and filtering a signal piece by piece with a state gives the same samples as filtering it at once, whatever the pieces.",
  ["inputs", "histories", "configurations"], "every sample and coefficient value; lengths, offsets, chunk sizes and ways to cut the signal up to the enumerated bound",
  "tests compare one or two random signals of convenient length; boundary chunks, signals shorter than the filter or state and odd chunk sizes are sampled at best",
  ["Filtering/FIR/Filter.hpp", "Math/OverlapAdd.hpp", "Math/Convolution.hpp", "Kernels/Convolution.hpp"],
  [("filtering", "Filtering/FIR/Filter.hpp"), ("overlap-add", "Math/OverlapAdd.hpp"), ("convolution kernels", "Kernels/Convolution.hpp")],
  "partial evaluation in LLVM IR at fixed lengths with symbolic samples; each output is a bilinear form compared with the convolution sum; the FFT is replaced through explicit specialisation by the exact transform matrix", SPN)
P("I01", "Recursive designs use the order, ripples and edges they were asked for",
  "For every method (Butterworth, Chebyshev 1 and 2, elliptic) and band (low, high, pass, stop), the designed filter is the method's analog prototype of the requested order (half of it for pass and stop bands) and of the requested ripples, discretised to a half band and mapped so that its band edge lands exactly on the requested edges, with as many zeros and poles as requested; the in-place form and descriptors of another floating point type give the same.",
  ["inputs", "configurations"], "every edge, ripple, method and band; several orders of both parities; every subset of ripple setters",
  "tests design one filter of each kind with one set of ripples and look at loose gain bounds",
  ["Filtering/IIR.hpp", "Filtering/IIR/BandTransforms.hpp", "LTISystems/DiscretizationTransforms.hpp"], [("designs", "Filtering/IIR.hpp")],
  "partial evaluation in LLVM IR with stand-in prototypes (explicit specialisations) that encode their arguments; the response of the extracted result compared with the prototype's response at the analytically mapped point", SPN)
P("Z01", "Resampling and polyphase filtering give exactly the samples they define",
  "Decimation, expansion, polyphase decomposition and normalisation place every coefficient and sample where their definition says; interpolation equals expansion followed by filtering for every part of the output; resampling equals linear interpolation of the interpolated signal at every rational position; the stated lengths, delays and cutoffs are exact; and stopping anywhere and going on from the returned suspension point, with only the samples it asks for, gives the same output as one call. Copied, moved and swapped polyphase filters own their coefficients.",
  ["inputs", "histories", "configurations"], "every sample and coefficient value; lengths, tap counts, phase counts, rates, start points and split points up to the enumerated bound",
  "tests interpolate a few long random signals at one or two rates; short signals, filters shorter than the phase count, fractional start points and splits at an arbitrary output are not reached",
  ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp", "Math/Rational.hpp"], [("interpolation and resampling", "Filtering/Resample.hpp"), ("polyphase filters", "Filtering/Polyphase.hpp")],
  "partial evaluation in LLVM IR at fixed sizes and rates with symbolic samples; each output is a bilinear form compared with the definition", SPN)
P("J01", "Elliptic prototypes have exactly the requested ripples",
  "The elliptic prototype of order n has n poles in the left half plane and n/2 pairs of zeros on the imaginary axis beyond the stop band edge, its squared magnitude is 1/(1 + e^2 R(w)^2) with R the elliptic rational function of order n whose modulus satisfies the degree equation for the two ripples, and its gain at zero frequency is 1 for odd and 1 minus the pass band ripple for even orders.",
  ["inputs", "configurations"], "every pass band ripple and stop band ripple, both parities; orders 1 to 7 (10 in the thorough tier)",
  "tests check the extrema of one or two prototypes with loose tolerances",
  ["Filtering/IIR/Elliptic.hpp"], [("elliptic prototype", "Filtering/IIR/Elliptic.hpp")],
  "partial evaluation in LLVM IR at fixed orders with the elliptic functions and the root finder as uninterpreted symbols; extracted response compared with the elliptic rational function", SPN + " The elliptic functions themselves are J02's, the root finder J03's.")
P("J02", "Elliptic integrals and Jacobi functions compute what their names say",
  "CarlsonRF (real and complex), EllipticK, EllipticAM, and EllipticSN/CN/DN with their inverses, real and complex, are the functions of those names: each iteration, whenever its stopping criterion is met, has arrived at the value within the requested precision; range reduction, signs, the complex addition formulas and the reduction of the inverses to Carlson's integral are exact.",
  ["inputs", "configurations"], "every argument, real or complex, and every modulus from 0 to 1, for up to eight iterations",
  "tests compare a handful of tabulated values",
  ["Math/EllipticFunctions.hpp"], [("elliptic functions", "Math/EllipticFunctions.hpp")],
  "type-level instantiation with a symbolic number type whose comparisons follow a fixed schedule, partial evaluation in LLVM IR; extracted terms compared with the function wherever the schedule is the one the code follows", SPN)
P("J03", "Root finders return a converged iterate of their method",
  "Bisect, for an interval with a sign change in either order of its ends, keeps a root bracketed, halves the bracket in every step and stops only when the bracket is within the tolerance or no longer shrinks; NewtonRaphson returns an iterate of Newton's method from the given start and stops only when the last step is within the tolerance or no longer smaller than the one before.",
  ["inputs", "schedules"], "every function, interval, start and tolerance, for all comparison outcomes that let the iteration go on for up to 8 (bisection) or 12 (Newton) decisions",
  "tests find three roots with the default tolerance only",
  ["Math/Solvers.hpp"], [("root finders", "Math/Solvers.hpp")],
  "type-level instantiation with a symbolic number type and an uninterpreted function, partial evaluation in LLVM IR for each schedule of comparison outcomes; extracted iterate compared with the method's", SPN)
P("P02", "A factored polynomial built from a list of roots holds exactly these roots",
  "Constructing a factored polynomial from a list or range of complex roots rejects the list exactly when its complex roots are not balanced conjugate pairs (counted with multiplicity), and otherwise stores every real root and the upper member of every pair, in the order of the list, with matching counts.",
  ["inputs"], "every value of the real roots; every list of roots, repeated ones included, over a set of complex values up to four roots (and some of five and six)",
  "tests build a few polynomials from distinct roots in one order",
  ["Math/Polynomials.hpp"], [("construction from roots", "Math/Polynomials.hpp")],
  "partial evaluation in LLVM IR of construction from every list of roots up to a length, with symbolic real roots; stored roots compared with the list", SPN)
P("M01", "Frequency responses sample the system on its frequency grid",
  "FrequencyResponse of a discrete zero-pole-gain system, transfer function or biquad cascade returns, for a grid of n points (as asked for, or 20 points per order plus 20), the magnitude and the phase of the system at exp(i pi k/(n-1)), k = 0..n-1; of an impulse response of m samples, given as signal or view, it returns the magnitudes and phases of the non-redundant half of the discrete Fourier transform of the samples padded with zeros to max(m, 2n-1), n being 10 m when not given. Magnitude and phase have the same length, and neither depends on anything else.",
  ["inputs"], "every sample, root, gain and coefficient; systems, impulse lengths and grids up to the enumerated sizes",
  "no test of the repository asks for the response of a system or impulse at more than a handful of filters; none varies grid, padding, orders and multiplicities together, nor compares phases",
  ["Filtering/MeasureFilter.hpp", "LTISystems/Systems.hpp", "Math/FFT.hpp"], [("FrequencyResponse", "Filtering/MeasureFilter.hpp")],
  "partial evaluation in LLVM IR over symbolic samples, roots, coefficients and gains, PocketFFT replaced by the transform's definition; every bin compared with the definition", SPN + " Sines and cosines of the phases are compared, so that the two representations of half a turn are the same.")
P("X01", "Calls share no hidden state and depend on nothing but their arguments",
  "No function of the library keeps anything from one call to the next outside its arguments and results: objects with static storage duration are constants that do not depend on any call's arguments, scratch space kept per thread is written by a call before it is read, the plan cache of PocketFFT is only touched while its lock is held, and no class changes a member under const access. Hence calls on distinct objects from different threads do not interfere, objects may be read concurrently, and repeating a call with equal arguments gives the same result. No function asks for time, random numbers, the environment or another source of nondeterminism, or does input or output.",
  ["schedule", "history"], "every call order and thread interleaving, every instantiation of every template (the rules hold for the uninstantiated source)",
  "the tests run single-threaded, in one order, and compare single results; a hidden cache or an unguarded shared object shows only under other histories or schedules",
  ["Math/EllipticFunctions.hpp", "PocketFFT/pocketfft_hdronly.h", "Filtering/IIR/Realizations.hpp", "Filtering/Resample.hpp", "Generators/Waveforms.hpp"], [("EllipticAM's scratch array", "Math/EllipticFunctions.hpp"), ("get_plan", "PocketFFT/pocketfft_hdronly.h")],
  "query over the Clang syntax tree of all headers: storage duration, constness, initialiser dependence, first use of thread-local scratch, lock scope around shared statics, mutable members, references to nondeterministic or effectful functions", "Classes that contain a mutex count as synchronising themselves; the discipline inside PocketFFT's thread pool (unused: all transforms ask for one thread) is not analysed.")
P("E04", "With assertions on, wrong sizes stop a call before it writes, right ones never",
  "In a build with assertions, operations that take several signals and promise nothing for mismatched sizes - inner products, covariance and correlation, corrected moments of too few samples, extrema of nothing, forward and inverse transforms, shifts of spectra, full, central and offset convolution and overlap-add, stateful and stateless filtering, mirrored, complementary and shifted filter responses, halfband to Hilbert conversions, polyphase decomposition, decimation and expansion, parts of a view, windowed filter designs, recursive band designs of an odd order and fractions of a denominator that is not positive - do not return and write nothing to the result when the sizes do not fit the operation, and are never stopped when they fit: an output of n or n/2+1 bins for n real samples; offset + output at most the full convolution; a chunk of at least 2 m - 1 for the shorter operand of m samples; a state one shorter than the filter; a rate times or a rate-th of the samples; odd windowed filters of the window's size.",
  ["inputs"], "every combination of operand, result, state and chunk sizes and offsets (path conditions over symbolic sizes, compared over several hundred size combinations)",
  "tests call the operations with fitting sizes only: a check that is too weak is invisible to them, and one that is too strong only shows for the sizes they do not use",
  ["Math/DotProduct.hpp", "Math/Statistics.hpp", "Math/FFT.hpp", "Math/Convolution.hpp", "Math/OverlapAdd.hpp", "Filtering/FIR/Filter.hpp", "Filtering/FIR/BandTransforms.hpp", "Filtering/FIR/Windowed.hpp", "Filtering/IIR.hpp", "Filtering/Polyphase.hpp", "Filtering/Resample.hpp", "Primitives/SignalView.hpp", "Math/Rational.hpp"], [("size assertions", "Math/Convolution.hpp"), ("size assertions of the transforms", "Math/FFT.hpp")],
  "path conditions of returns and of writes to the result in LLVM IR (kernels and transforms stay calls), compared with the size contract", "Loops with a single normal exit are taken to be left by it. Whether a call that does not return has thrown or been stopped by an assertion is not distinguished.")
P("T01", "Type traits answer truthfully for every type they are asked about",
  "is_complex is true exactly for std::complex of any scalar, and remove_complex yields its scalar (or the type itself), both whatever the const and volatile qualifiers, which remove_complex keeps; the conditional qualifiers add const and volatile exactly when asked; multiplies_result, plus_result, minus_result and divides_result name exactly the type of the expression on the operands in that order, references included, and are absent exactly when the operator is; is_random_access_iterator tells iterators with random access (those of signals and views included) from others. is_signal, is_signal_view and is_signal_like classify signals, views and foreign types; signal_traits give the element type, with const for views of const, and the domain; is_same_domain holds exactly when all of any number of operands, references and const included, are signals or views of one domain; is_mutable_signal holds for non-const signals and for views, const or not, of non-const elements, and for nothing else. pi_v and i_v are pi and the imaginary unit in every precision.",
  ["inputs", "configurations"], "element types x domains x qualifiers x references x shapes of operand, pairs to quadruples of operands (about 2400 type combinations)",
  "all overloads of the library are selected by these traits, and a wrong answer for one combination silently removes an overload or admits a wrong one; tests use a handful of combinations",
  ["Utility/TypeTraits.hpp", "Primitives/SignalTraits.hpp", "Utility/Numbers.hpp"], [("arithmetic traits", "Utility/TypeTraits.hpp"), ("signal traits", "Primitives/SignalTraits.hpp")],
  "compile-time witnesses: each trait evaluated by the type checker on the matrix of type combinations", "Qualified signal types are only put to the traits that document them: is_signal and its kin on plain types.")
P("A01", "Numerical accuracy of the transforms and filters",
  "FFT followed by inverse FFT reproduces the input, and every filter its ideal output, within a few units of rounding times the logarithm of the length.",
  ["inputs"], "every signal, length and element type", "tests compare with fixed tolerances on a few random signals", ["Math/FFT.hpp", "Math/OverlapAdd.hpp"], [("transform", "Math/FFT.hpp")],
  na="An error bound over all lengths needs a rounding-error analysis of the third-party PocketFFT code-generated butterflies and of every summation order; no dataflow or type-level argument bounds it. F01 decides what is handed to the transform, I07 and R01 that every sample is combined exactly once over the reals.")
P("A02", "Elliptic designs reach their ripples in floating point for every order",
  "For every order and pair of ripples, however extreme, the modulus found numerically and the roots computed from it give the requested ripples within a few units of rounding.",
  ["inputs"], "every order and pair of ripples", "tests check one or two ripples with a tolerance", ["Filtering/IIR/Elliptic.hpp", "Math/EllipticFunctions.hpp"], [("elliptic prototype", "Filtering/IIR/Elliptic.hpp")],
  na="A conditioning argument about a root of a transcendental equation near the ends of its range: no static bound in reach. J01, J02 and J03 decide the prototype's formula, the elliptic functions and the root finder it is made of, over the reals.")
P("A03", "Designed recursive filters are stable in floating point",
  "All poles of a designed filter, and of its transfer function and biquad realisations after rounding, lie strictly inside the unit circle.",
  ["inputs"], "every design and element type", "tests run a few filters of low order", ["Filtering/IIR.hpp", "LTISystems/Systems.hpp"], [("realisations", "LTISystems/Systems.hpp")],
  na="Depends on the rounding of products of near-coincident roots for runtime orders; no static bound in reach (for large orders it is false: direct forms of narrow filters do go unstable). Over the reals it follows from I04 and I05 (poles in the left half plane, bilinear map).")
P("A04", "Least squares designs minimise the weighted squared error",
  "The coefficients returned by a least squares design minimise the weighted squared error of the response over its frequency grid up to rounding.",
  ["inputs"], "every band edge, weight and tap count", "tests look at the gain of a few designs", ["Filtering/FIR/LeastSquares.hpp"], [("least squares", "Filtering/FIR/LeastSquares.hpp")],
  na="Optimality of the solution is a property of Eigen's pivoted QR iteration on runtime data. I06 decides that the system handed to Eigen is exactly the normal equations of the grid and that its solution is placed into the filter as it should be.")
P("A05", "Overlap-add with an automatic chunk is fast and its chunk is never too small",
  "The chunk size chosen when none is given is never smaller than twice the filter length minus one and gives O(log filter) operations per sample.",
  ["inputs"], "every pair of lengths", "benchmarks sample a few lengths", ["Math/OverlapAdd.hpp", "Math/Solvers.hpp"], [("chunk choice", "Math/OverlapAdd.hpp")],
  na="The size is the power of two above the root of a transcendental cost function found by Newton iterations with a convergence test; a lower bound on that root needs real analysis of the iteration, not a static rule over the source. I07 decides that the result is right for every admissible chunk size.")
P("A06", "Iterative solvers come to an end for every function",
  "Newton-Raphson and bisection end for every function and starting point, and Newton-Raphson ends near a root.",
  ["inputs"], "every function and starting point", "tests solve a few textbook functions", ["Math/Solvers.hpp"], [("solvers", "Math/Solvers.hpp")],
  na="Convergence depends on the user's function and on floating point behaviour of the iterates: for arbitrary functions the statement is false. J03 decides what an iteration does and what holds when it stops.")
P("A07", "Measured filter parameters approximate the true band edges",
  "Pass, stop and transition bands and ripples reported by the filter measurement functions match the response within the grid resolution for every filter of the stated type.",
  ["inputs"], "every response", "tests measure a handful of synthetic responses", ["Filtering/MeasureFilter.hpp"], [("measurement", "Filtering/MeasureFilter.hpp")],
  na="The functions are heuristics (fuzzy classification and thresholds over sampled spectra) without an exact specification to decide against; the quality of their estimates quantifies over runtime data.")
