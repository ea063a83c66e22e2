PROPS += [
dict(id='D09', title='Amplitude modules change every sample exactly once, in place',
 statement='Processing an amplitude module replaces every sample of the buffer it took from the module behind, in every channel and whatever the buffer size, by that sample times (scale) or plus (add) the configured amount, exactly once per cycle. It changes nothing else: not the number of samples, the channel count, the sample rate or the amount.',
 quantifier=dict(over=['inputs', 'configurations'], text='all buffer sizes, channel counts, sample values and amounts'),
 why_tests_cant='Tests check one amount on one mono buffer; a loop over frames instead of samples or a special-cased value passes them.',
 anchors=dict(files=['include/maec/amp_module.hpp'], mechanism=[dict(name='AmplitudeScale::process / AmplitudeAdd::process', where='include/maec/amp_module.hpp')]),
 technique='loop coverage by scalar evolution of the write addresses, one symbolic iteration evaluated exactly',
 level_note='decides the extracted expression in exact arithmetic'),
dict(id='D01', title='Every way of addressing a buffer agrees on one layout',
 statement='Sample s of channel c of a buffer with C channels is element c + s*C for every accessor, const or not: at(channel, sample), at(index), and all four iterator kinds, whose position i is channel i mod C, sample i div C when interleaved and channel i div N, sample i mod N when sequential (N samples per channel); stepping, adding, subtracting, comparing, subscripting and setting a position of an iterator move it to exactly that position, and begin to end covers every sample once. Constructing, copying, moving, assigning, resizing, appending and clearing a buffer keep exactly the stated elements, channel count and sample rate, and no accessor or iterator operation changes them.',
 quantifier=dict(over=['inputs', 'configurations', 'states'], text='all channel counts, sizes that are whole frames, channels, samples, iterator positions and operands that stay inside the buffer or one past its end'),
 why_tests_cant='Tests use a few two-channel buffers; a division that only goes wrong for another ratio of channels to samples, or one operator of one iterator kind, passes them.',
 anchors=dict(files=['include/maec/dsp/buffer.hpp'], mechanism=[dict(name='BaseMAECIterator, SeqIterator, InterIterator, BaseBuffer, Buffer, StaticBuffer', where='include/maec/dsp/buffer.hpp')]),
 technique='path formulas of every operation extracted from the compiler IR and compared with the layout rule by exact evaluation over enumerated shapes',
 level_note='complete for the enumerated channel counts, lengths and positions; element type double'),
dict(id='D03', title='Ring buffers wrap and recursive filters compute their recurrence',
 statement='Index i of a ring buffer of n elements refers to element i modulo n for every positive or negative i, through the buffer and its iterators. A recursive filter made with any numbers of A and B coefficients turns every input signal, however long and however it is cut into calls, into y[t] = sum a[i]*x[t-i] + sum b[i]*y[t-1-i] starting from silence (iir_recursive_single computes the same from the given histories and moves them by one sample), and a single pole filter uses a0 = 1-x, b0 = x (low pass, x = exp(-2*pi*high fraction)) or a0 = (1+x)/2, a1 = -(1+x)/2, b0 = x (high pass, x = exp(-2*pi*low fraction)), a fraction being frequency divided by sample rate.',
 quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all signals, coefficient values, numbers of coefficients, call boundaries and ring indexes'),
 why_tests_cant='There are no tests of the recursive filters, and a sampled signal cannot exercise every alignment of history and ring position.',
 anchors=dict(files=['include/maec/dsp/iir.hpp', 'include/maec/dsp/buffer.hpp'], mechanism=[dict(name='IIRFilter, iir_recursive_single, SinglePole', where='include/maec/dsp/iir.hpp'), dict(name='RingBuffer', where='include/maec/dsp/buffer.hpp')]),
 technique='abstract interpretation over polynomials in the samples and coefficients, with recurrence of the control state',
 level_note='coefficient counts enumerated up to a bound; exact for all sample and coefficient values, floating-point rounding ignored'),
dict(id='D04', title='Every convolution routine returns the full convolution sum',
 statement='For every signal x of N samples and kernel h of M samples, the input side, output side and FFT convolution, with sizes, iterator pairs or buffers, into a zeroed output, give exactly length_conv(N, M) = N+M-1 samples y[k] = sum of x[i]*h[k-i] over the valid i. They neither read nor write outside the given ranges nor change the signal or the kernel.',
 quantifier=dict(over=['inputs', 'configurations'], text='all sample values and all pairs of signal and kernel lengths of at least one sample'),
 why_tests_cant='Tests convolve one or two fixed signals; an edge that is only wrong when the kernel is longer than the signal, or at a length that is no power of two, passes them, and the FFT convolution is not tested.',
 anchors=dict(files=['include/maec/dsp/conv.hpp', 'src/dsp/conv.cpp'], mechanism=[dict(name='input_conv, output_conv, conv_fft, length_conv', where='include/maec/dsp/conv.hpp')]),
 technique='abstract interpretation over polynomials in the samples, bounds checked on every access',
 level_note='pairs of lengths enumerated up to a bound plus some long ones; exact for all sample values, rounding ignored'),
dict(id='D08', title='Fourier routines are the discrete transform and its inverse',
 statement='dft and fft_r_radix2 turn N real samples into the length_ft(N) = N/2+1 bins X[k] = sum x[n]*exp(-2*pi*i*k*n/N), inv_dft and ifft_r_radix2 turn such bins of an even number of samples back into exactly those samples, and fft_c_radix2 and ifft_c_radix2 (out of place with any stride and sign, or in place followed by bit_reverse) are the complex transform and its inverse, divided by N once. The radix 2 routines hold for every power of two and the out-of-place forward transforms leave their input alone. The lengths, bin frequencies (index*rate/N), cosine and sine basis and bit reversal follow their definitions.',
 quantifier=dict(over=['inputs', 'configurations'], text='all sample values and all sizes the routine accepts'),
 why_tests_cant='Tests compare a few fixed signals at one or two sizes, so a bin, sign or normalisation that is wrong for another size passes them.',
 anchors=dict(files=['include/maec/dsp/ft.hpp', 'src/dsp/ft.cpp', 'include/maec/dsp/util.hpp'], mechanism=[dict(name='dft, inv_dft, fft_c_radix2, ifft_c_radix2, fft_r_radix2, ifft_r_radix2', where='include/maec/dsp/ft.hpp'), dict(name='bit_reverse', where='include/maec/dsp/util.hpp')]),
 technique='abstract interpretation over linear forms in the samples, compared with the defining sum',
 level_note='sizes enumerated up to a bound; exact for all sample values up to a coefficient tolerance of 1e-9, rounding ignored'),
dict(id='D05', title='Windows, sinc kernels and spectral operations follow their formulas',
 statement='Position i of a window of n points is 1 (rectangle), a0-(1-a0)*cos(2*pi*i/(n-1)) (Hann 0.5, Hamming 0.54, or the given a0), and (1-alpha)/2 - cos(2*pi*i/(n-1))/2 + alpha/2*cos(4*pi*i/(n-1)) (Blackman, alpha 0.16 or as given), and sinc(x) is sin(x)/x with 1 at zero. For every cutoff f and odd size n, sinc_kernel writes exactly n taps, sinc(2*pi*f*(i-(n-1)/2)) times the window at i, divided by their sum, for any symmetric window that is 1 in the middle. Spectral inversion negates every tap and adds 1 to the middle one of an odd kernel, and spectral reversal negates exactly the taps at even positions.',
 quantifier=dict(over=['inputs', 'configurations'], text='all cutoffs, window coefficients, windows, taps, positions and sizes'),
 why_tests_cant='Tests compare tables for one size; there are no tests of the kernel operations.',
 anchors=dict(files=['src/dsp/window.cpp', 'include/maec/dsp/window.hpp', 'include/maec/dsp/kernel.hpp', 'src/dsp/util.cpp'], mechanism=[dict(name='window_*', where='src/dsp/window.cpp'), dict(name='sinc_kernel, spectral_inversion, spectral_reversal', where='include/maec/dsp/kernel.hpp')]),
 technique='abstract interpretation over expressions in the cutoff, the window and the taps',
 level_note='sizes enumerated up to a bound; exact for all cutoffs, windows and taps, rounding ignored'),
dict(id='D10', title='Matrix products, dot products and signal helpers compute their definition',
 statement='A dot product of n elements is the sum of their n products, in the type of the elements. matrix_mult of an R by K and a K by C matrix (rows are channels, columns are samples) gives the output buffer R channels of C samples with out(r, c) = sum of a(r, k)*b(k, c), whatever it held before, and leaves the factors alone. multiply_signals gives the product of each pair of samples, also in place, real_complex_naive turns each sample into a complex number without imaginary part, and real_eop_complex each pair of samples into one complex number.',
 quantifier=dict(over=['inputs', 'configurations'], text='all element values, lengths and matrix shapes'),
 why_tests_cant='There are no tests of these functions beyond use in others; a square matrix or an even length would hide a swapped dimension or a lost last element.',
 anchors=dict(files=['include/maec/dsp/matrix.hpp', 'include/maec/dsp/util.hpp'], mechanism=[dict(name='dot_product, matrix_mult', where='include/maec/dsp/matrix.hpp'), dict(name='multiply_signals, real_complex_naive, real_eop_complex', where='include/maec/dsp/util.hpp')]),
 technique='abstract interpretation over polynomials in the elements, shapes enumerated',
 level_note='shapes enumerated up to a bound; exact for all element values, rounding ignored'),
dict(id='D06', title='Convolution filters filter each channel seamlessly across blocks',
 statement='Whatever the sizes of the blocks, output sample t of each channel of a convolution filter is sum of h[k]*x[t-k] over the samples its channel got since the last start (silence before), so no tail is lost, repeated or leaked between channels, blocks or sessions, also when the kernel is replaced by a longer or shorter one (earlier samples ring out with the old kernel), and each block keeps its number of samples, channels and sample rate. A sinc filter, when generated or started, makes a kernel of exactly its size (odd): low pass = the Blackman windowed sinc kernel at start frequency / sample rate of the module, high pass = its spectral inversion, band reject = low pass at the start plus inverted low pass at the stop frequency, band pass = the inversion of that. It remembers the type, size and frequencies it was given',
 quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all samples, taps, frequencies, block sequences, channel counts and restarts'),
 why_tests_cant='There are no tests of the filters; the seams only show over several blocks, with kernels longer than a block, or after a restart.',
 anchors=dict(files=['include/maec/filter_module.hpp'], state=[dict(name='overlap_tail, kernel', meaning='tails of earlier blocks and the taps', where='include/maec/filter_module.hpp')], mechanism=[dict(name='BaseConvFilter::process, SincFilter::generate_kernel', where='include/maec/filter_module.hpp')]),
 technique='abstract interpretation over polynomials in the samples and taps, over enumerated block sequences',
 level_note='block sequences, channel counts and kernel sizes enumerated up to a bound; exact for all samples, taps and frequencies, rounding ignored'),
]
PROPS += [
dict(id='D02', title='What is given or read as constant cannot be changed',
 statement='Through a constant buffer, a constant iterator or a position reached from one, samples, length, channels and sample rate can be read in every way but never changed: each attempt is rejected when the program is compiled, and the same access to a changeable buffer is accepted. No function of the library changes an object that it takes as constant, its own object in a constant method included, nor a value that object owns. Iterators are what the standard algorithms expect of them, and buffers can be copied, and moved without ever failing.',
 quantifier=dict(over=['inputs', 'configurations'], text='all kinds of buffers and iterators, all ways of access, all functions with a constant argument'),
 why_tests_cant='A test cannot contain what must not compile, and a constant method that writes a cache passes every test of its result.',
 anchors=dict(files=['include/maec/dsp/buffer.hpp', 'include/maec', 'src'], mechanism=[dict(name='BaseMAECIterator, BaseBuffer, Buffer, StaticBuffer, RingBuffer', where='include/maec/dsp/buffer.hpp'), dict(name='functions with constant arguments', where='include/maec, src')]),
 technique='compile-fail and type-level witnesses, and an interprocedural effect analysis of what functions write through constant arguments',
 level_note='exact for the listed accesses and sound for the instantiated functions, aliasing between arguments aside'),
]
