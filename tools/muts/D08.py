H = 'include/maec/dsp/ft.hpp'
S = 'src/dsp/ft.cpp'
U = 'include/maec/dsp/util.hpp'
MUTS = [
    ('bug', 'real-quarter', [(H, 'int total = size >> 2;', 'int total = (size - 1) >> 2;')]),
    ('bug', 'real-invert-a2', [(H, '            a2 = std::conj(a2);\n', '')]),
    ('bug', 'ifft-norm', [(H, '*(output + i) = *(output + i) / static_cast<double>(size);', '*(output + i) = *(output + i) / static_cast<double>(size - (size == 8));')]),
    ('bug', 'ifft-norm-twice', [(H, 'for (int i = 0; i < size; ++i) {\n\n        // Normalize the output:\n\n        *(input', 'for (int i = 0; i < size - 1; ++i) {\n\n        // Normalize the output:\n\n        *(input')]),
    ('bug', 'stride', [(H, 'fft_c_radix2(input + stride, N_2, output + N_2, stride * 2, sign);', 'fft_c_radix2(input + stride, N_2, output + N_2, stride + 2, sign);')]),
    ('bug', 'sign', [(H, 'fft_c_radix2(input + N_2, size / 2, sign);', 'fft_c_radix2(input + N_2, size / 2);')]),
    ('bug', 'sign2', [(H, 'fft_c_radix2(input, N_2, output, stride * 2, sign);', 'fft_c_radix2(input, N_2, output, stride * 2);')]),
    ('bug', 'invdft-last', [(H, 'if (k == 0 || k == (size - 1)) {', 'if (k == 0) {')]),
    ('bug', 'invdft-sign', [(H, '(inp + k)->imag() / (-div_value)', '(inp + k)->imag() / (k == 3 ? div_value : -div_value)')]),
    ('bug', 'dft-last', [(H, 'for (std::size_t i = 0; i < size; ++i) {\n\n            // Determine value at current', 'for (std::size_t i = 0; i < 2 * (size / 2); ++i) {\n\n            // Determine value at current')]),
    ('bug', 'dft-int', [(S, 'return sin((2 * std::numbers::pi_v<double> * freq * phase) / total);', 'return sin((2 * std::numbers::pi_v<double> * freq * phase) / (total + (phase > 9)));')]),
    ('bug', 'len', [(S, 'return (size / 2) + 1;', 'return (size + 2) / 2 - (size == 1 ? 1 : 0);')]),
    ('bug', 'freq', [(S, '(sample_rate / static_cast<double>(size))', '(sample_rate / static_cast<double>(2 * (size / 2)))')]),
    ('bug', 'bitrev', [(U, 'if (i < j) {', 'if (i < j && j != 6) {')]),
    ('bug', 'twiddle-a', [(H, 'return (static_cast<T>(1.0) - (res * 1i)) / static_cast<T>(2);', 'return (static_cast<T>(1.0) - (std::conj(res) * 1i)) / static_cast<T>(2);')]),
    ('bug', 'last-bin', [(H, 'complex[size / 2] = complex[0];', 'complex[size / 2] = std::conj(complex[0]);')]),
    ('same', 'butterfly', [(H, 'const std::complex<double> first = *(output + p);', 'const auto first = output[p];')]),
    ('same', 'two-pi', [(H, 'sign * 2 * std::numbers::pi_v<double> * k / size', 'sign * std::numbers::pi_v<double> * k / (size / 2.0)')]),
    ('same', 'real-b', [(H, '            // Conjugate each value:\n\n            a1 = std::conj(a1);\n            b1 = std::conj(b1);', '            b1 = std::conj(b1);\n a1 = std::complex<double>(a1.real(), -a1.imag());')]),
    ('same', 'dft-acc', [(H, 'iter->real(iter->real() + (val * cos_basis(i, size, k)));\n            iter->imag(iter->imag() - (val * sin_basis(i, size, k)));', '*iter += std::complex<double>(val * cos_basis(i, size, k), -val * sin_basis(i, size, k));')]),
    ('same', 'inv-order', [(H, 'real_part /= 2;', 'real_part = 0.5 * real_part;')]),
    ('same', 'ifft-mul', [(H, '*(output + i) = *(output + i) / static_cast<double>(size);', '*(output + i) *= 1.0 / size;')]),
    ('same', 'cos', [(S, 'return cos((2 * std::numbers::pi_v<double> * freq * phase) / total);', 'const double w = 2 * std::numbers::pi_v<double> / total; return std::cos(w * freq * phase);')]),
    ('same', 'bitrev', [(U, 'for (int i = 0, j = 1; j < size - 1; j++) {\n\n        for (int k = size >> 1; k > (i ^= k); k >>= 1) {\n        }\n', 'int i = 0;\n    for (int j = 1; j + 1 < size; ++j) {\n        int k = size / 2;\n        while (i & k) { i ^= k; k /= 2; }\n        i |= k;\n')]),
    ('same', 'real-copy', [(H, 'std::complex<double> left = *(complex + k);', 'auto pos = complex + k; std::complex<double> left = *pos;')]),
]
