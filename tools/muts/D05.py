K = 'include/maec/dsp/kernel.hpp'
W = 'src/dsp/window.cpp'
U = 'src/dsp/util.cpp'
MUTS = [
    ('bug', 'hann-size', [(W, 'std::cos(2 * std::numbers::pi_v<double> * num / (size - 1)));\n}\n\ndouble dsp::win::window_hamming', 'std::cos(2 * std::numbers::pi_v<double> * num / (size > 50 ? size : size - 1)));\n}\n\ndouble dsp::win::window_hamming')]),
    ('bug', 'hamming-a0', [(W, 'return window_hann(num, size, a0);', 'return window_hann(num, size, a0 > 0.5 ? 0.54 : a0);')]),
    ('bug', 'blackman', [(W, 'return window_blackmanc(num, size, 0.16);', 'return window_blackmanc(num, size);'), ('include/maec/dsp/window.hpp', 'double alpha = 0.16', 'double alpha = 0.1')]),
    ('bug', 'blackman-half', [(W, '(0.5 * std::cos', '((0.42 + alpha / 2) * std::cos')]),
    ('bug', 'sum', [(K, 'sum += value * 2;', 'sum += value + *(output + i + 1);')]),
    ('bug', 'sum-abs', [(K, 'sum += value * 2;', 'sum += (i > 4 ? std::abs(value) : value) * 2;')]),
    ('bug', 'norm-last', [(K, 'for (int i = 0; i < size; ++i) {\n\n        // Divide', 'for (int i = 0; i < 2 * size2; ++i) {\n\n        // Divide')]),
    ('bug', 'window-pos', [(K, '* window(i, size);', '* window(i, size - (size > 9));')]),
    ('bug', 'mirror', [(K, '*(output + (size - i - 1)) = value;', '*(output + (size - i - 1)) = i == 0 ? 0 : value;')]),
    ('bug', 'invert-center', [(K, '*(input + (size / 2)) += 1;', '*(input + ((size + 1) / 2 - (size < 6))) += 1;')]),
    ('bug', 'reversal', [(K, 'for (int i = 0; i < size; i += 2) {', 'for (int i = 0; i < size - 1; i += 2) {')]),
    ('bug', 'sinc-zero', [(U, 'if (x == 0) {', 'if (x > -0.2 && x < 0.2) {')]),
    ('bug', 'freq', [(K, '2 * std::numbers::pi_v<double> * freq;', '2 * std::numbers::pi_v<double> * (freq > 0.5 ? 0.5 : freq);')]),
    ('same', 'hann', [(W, 'return a0 - ((1 - a0) *', 'const double a1 = 1 - a0;\n    return a0 - (a1 *')]),
    ('same', 'blackman', [(W, '((1 - alpha) / 2) -', '0.5 - alpha / 2 -')]),
    ('same', 'kernel-scale', [(K, '*(output + i) /= sum;', '*(output + i) *= 1 / sum;')]),
    ('same', 'kernel-sum', [(K, 'double sum = 1.;', 'double sum = .5;'), (K, 'sum += value * 2;', 'sum += value;'), (K, '/= sum;', '/= 2 * sum;')]),
    ('same', 'kernel-sinc', [(K, 'util::sinc(inner * half)', 'util::sinc(inner * -half)')]),
    ('same', 'invert', [(K, '*(input + i) *= -1;\n    }\n\n    // Add one', '*(input + i) = -*(input + i);\n    }\n\n    // Add one')]),
    ('same', 'reversal', [(K, 'for (int i = 0; i < size; i += 2) {\n\n        // Negate this sample:\n\n        *(input + i) *= -1;', 'for (int i = 0; i < size; ++i) {\n\n       if (i % 2 == 0)\n        *(input + i) *= -1;')]),
    ('same', 'sinc', [(U, 'if (x == 0) {\n        return 1.;\n    }\n\n    // Calculate and return:\n\n    return std::sin(x) / x;', 'return x != 0 ? std::sin(x) / x : 1.;')]),
    ('same', 'kernel-half', [(K, 'const int half = i - size2;', 'const int half = size2 - i;')]),
]
