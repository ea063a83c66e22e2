M = 'include/maec/dsp/matrix.hpp'
U = 'include/maec/dsp/util.hpp'
MUTS = [
    ('bug', 'int-acc', [(M, 'T done = 0;', 'int done = 0;')]),
    ('bug', 'long-acc', [(M, 'T done = 0;', 'std::conditional_t<std::is_integral_v<T>, int, T> done = 0;')]),
    ('bug', 'dim', [(M, 'dot_product(rowv, colv, buf1.channel_capacity())', 'dot_product(rowv, colv, buf2.channel_capacity())')]),
    ('bug', 'dim2', [(M, 'dot_product(rowv, colv, buf1.channel_capacity())', 'dot_product(rowv, colv, std::min<int>(cols, buf1.channel_capacity()))')]),
    ('bug', 'rows', [(M, 'const int rows = static_cast<int>(buf1.channels());', 'const int rows = static_cast<int>(buf2.channels());')]),
    ('bug', 'resize', [(M, 'out.resize(rows * cols);', 'if (out.size() < rows * cols) out.resize(rows * cols);')]),
    ('bug', 'channels', [(M, 'out.set_channels(rows);', 'out.set_channels(cols);')]),
    ('bug', 'eop', [(U, 'i < size / 2; ++i', 'i < (size - 1) / 2; ++i')]),
    ('bug', 'mult', [(U, 'input1 + size, input2', 'input1 + size - (size > 4), input2')]),
    ('bug', 'naive', [(U, 'return std::complex<iter_type>(val, 0);', 'return std::complex<iter_type>(val, val > 1e9);')]),
    ('same', 'dot-rev', [(M, 'for (int i = 0; i < num; ++i) {', 'for (int i = num - 1; i >= 0; --i) {')]),
    ('same', 'order', [(M, 'out.set_channels(rows);\n    out.resize(rows * cols);', 'out.resize(cols * rows);\n    out.set_channels(buf1.channels());')]),
    ('same', 'sub', [(M, 'auto done = dot_product(rowv, colv, buf1.channel_capacity());', 'V done = 0; for (int k = 0; k < static_cast<int>(buf2.channels()); ++k) done += buf1.at(row, k) * buf2.at(k, col);')]),
    ('same', 'colrow', [(M, 'for (int row = 0; row < rows; ++row) {', 'for (int col = 0; col < cols; ++col) {'), (M, 'for (int col = 0; col < cols; ++col) {\n\n            // Grab', 'for (int row = 0; row < rows; ++row) {\n\n            // Grab')]),
    ('same', 'mult', [(U, 'return val1 * val2;', 'return val2 * val1;')]),
    ('same', 'eop', [(U, 'std::complex<double>(*(input + (2 * i)), *(input + (2 * i + 1)));', 'std::complex<double>(*input, *(input + 1)); input = input + 2;')]),
]
