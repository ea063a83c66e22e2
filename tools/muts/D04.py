H = 'include/maec/dsp/conv.hpp'
S = 'src/dsp/conv.cpp'
MUTS = [
    ('bug', 'fft-size', [(H, 'while (size < output_size) {', 'while (size < input_size) {')]),
    ('bug', 'fft-size2', [(H, 'while (size < output_size) {', 'while (size < output_size - 1) {')]),
    ('bug', 'fft-bins', [(H, 'util::multiply_signals(bins, ', 'util::multiply_signals(bins - 1, ')]),
    ('bug', 'fft-count', [(H, 'std::copy_n(pinput.begin(), output_size, output);', 'std::copy_n(pinput.begin(), size, output);')]),
    ('bug', 'out-bound', [(H, 'i - j > static_cast<int>(input_size) - 1', 'i - j > static_cast<int>(kernel_size) - 1')]),
    ('bug', 'out-bound2', [(H, 'i - j > static_cast<int>(input_size) - 1', 'i - j > static_cast<int>(input_size) - 2')]),
    ('bug', 'out-bound3', [(H, 'i - j < 0 || ', 'i - j <= 0 || ')]),
    ('bug', 'out-bound4', [(H, 'i - j > static_cast<int>(input_size) - 1', 'i - j > static_cast<int>(input_size)')]),
    ('bug', 'in-index', [(H, '*(output + i + j) += (*(input + i) * *(kernel + j));', '*(output + i + j) += (*(input + i) * *(kernel + (i > 3 ? kernel_size - 1 - j : j)));')]),
    ('bug', 'in-short', [(H, 'j < kernel_size; ++j', 'j < kernel_size - (kernel_size > 3 && i + 1 == input_size); ++j')]),
    ('bug', 'ends', [(H, 'output_conv(binput, std::distance(binput, einput), bkernel,\n                std::distance(bkernel, ekernel), output);', 'output_conv(binput, std::distance(bkernel, ekernel), bkernel,\n                std::distance(bkernel, ekernel), output);')]),
    ('bug', 'len', [(S, 'static_cast<int>(size1) + static_cast<int>(size2) - 1', 'static_cast<int>(size1) + static_cast<int>(size2)')]),
    ('bug', 'buf-len', [(S, 'BufferPointer buff = std::make_unique<AudioBuffer>(length_conv(static_cast<int>(input->size()), static_cast<int>(kernel->size())));\n\n    // Pass the data along to other', 'BufferPointer buff = std::make_unique<AudioBuffer>(static_cast<int>(input->size()));\n\n    // Pass the data along to other')]),
    ('bug', 'buf-seq', [(S, 'kernel->ibegin(), kernel->size(), buff->ibegin());\n\n    // Finally, return the output buffer:\n\n    return buff;\n}\n\nBuff', 'kernel->ibegin(), input->size(), buff->ibegin());\n\n    // Finally, return the output buffer:\n\n    return buff;\n}\n\nBuff')]),
    ('same', 'swap-loops', [(H, 'for (unsigned int i = 0; i < input_size; ++i) {', 'for (unsigned int j = 0; j < kernel_size; ++j) {'), (H, 'for (unsigned int j = 0; j < kernel_size; ++j) {\n\n            // Determine', 'for (unsigned int i = 0; i < input_size; ++i) {\n\n            // Determine')]),
    ('same', 'out-acc', [(H, '*output += *(kernel + j) * *(input + (i - j));', 'auto v = *(input + (i - j)) * *(kernel + j);\n *output = *output + v;')]),
    ('same', 'out-cond', [(H, 'if (i - j < 0 || i - j > static_cast<int>(input_size) - 1) {', 'const int at = i - j;\n if (!(at >= 0 && at < static_cast<int>(input_size))) {')]),
    ('same', 'out-range', [(H, 'for (int j = 0; j < static_cast<int>(kernel_size); ++j) {', 'for (int j = std::max(0, i - static_cast<int>(input_size) + 1); j <= std::min(i, static_cast<int>(kernel_size) - 1); ++j) {')]),
    ('same', 'fft-bit', [(H, 'while (size < output_size) {\n        size *= 2;\n    }', 'for (; size < output_size; size <<= 1) {}')]),
    ('same', 'fft-inplace', [(H, 'infp.begin(), kernfp.begin(), outf.begin());', 'infp.begin(), kernfp.begin(), infp.begin());\n outf = infp;')]),
    ('same', 'buf-out', [(S, 'dsp::conv::input_conv(input->ibegin()', 'dsp::conv::output_conv(input->ibegin()')]),
]
