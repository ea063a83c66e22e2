B='include/maec/audio_buffer.hpp'; A='src/audio_buffer.cpp'
MUTS=[
('bug','be16',[(B,'byts[1] = static_cast<signed char>(val >> 8);\n    byts[0] = static_cast<signed char>(val);','byts[0] = static_cast<signed char>(val >> 8);\n    byts[1] = static_cast<signed char>(val);')]),
('bug','signext32',[(B,'val |= static_cast<unsigned char>(byts[3 - i]);\n    }\n\n    // Return this value:\n    return val;\n}\n\n// other','val |= byts[3 - i];\n    }\n\n    // Return this value:\n    return val;\n}\n\n// other')]),
('bug','shift7',[(B,'        val >>= 8;','        val >>= 7;')]),
('bug','int16pos',[(A,'return static_cast<double>(val) / 32768.;','return static_cast<double>(val) / 32767.;')]),
('bug','noclamp',[(A,'''int16_t mf_int16(double val) {

    // Values out of range can not be represented, saturate:

    val = std::clamp(val, -1., 1.);
''','''int16_t mf_int16(double val) {
''')]),
('bug','noround',[(A,'static_cast<unsigned char>(std::round(((val + 1.) / 2.) * 255.))','static_cast<unsigned char>(((val + 1.) / 2.) * 255.)')]),
('bug','via8',[(A,'return static_cast<int16_t>(val * 32768);','return static_cast<int8_t>(val * 32768);')]),
('bug','float',[(A,'return (static_cast<double>(val) / 65535.) * 2. - 1.;','return (static_cast<float>(val) / 65535.F) * 2. - 1.;')]),
('bug','256',[(A,'return (static_cast<double>(val) / 255.) * 2. - 1.;','return (static_cast<double>(val) / 256.) * 2. - 1.;')]),
('bug','clamp0',[(A,'''char mf_char(double val) {

    // Values out of range can not be represented, saturate:

    val = std::clamp(val, -1., 1.);''','''char mf_char(double val) {

    // Values out of range can not be represented, saturate:

    val = std::clamp(val, -1., 2.);''')]),
('bug','round16',[(A,'return static_cast<int16_t>(val * 32767);','return static_cast<int16_t>(std::round(val * 32767));')]),
('same','minmax',[(A,'''int16_t mf_int16(double val) {

    // Values out of range can not be represented, saturate:

    val = std::clamp(val, -1., 1.);
''','''int16_t mf_int16(double val) {
    if (val > 1.) { return 32767; }
    if (val < -1.) { return -32768; }
''')]),
('same','tern',[(A,'''    if (val < 0) {

        // Divide by largest value:

        return static_cast<double>(val) / 128.;
    }

    // Divide by largest value:

    return static_cast<double>(val) / 127.;''','''    return static_cast<double>(val) / (val < 0 ? 128. : 127.);''')]),
('same','helper',[(A,'''double uchar_mf(unsigned char val) {''','''static double unit(double x, double m) { return x / m * 2. - 1.; }
double uchar_mf(unsigned char val) {'''),(A,'return (static_cast<double>(val) / 255.) * 2. - 1.;','return unit(val, 255.);')]),
('same','floor',[(A,'static_cast<unsigned char>(std::round(((val + 1.) / 2.) * 255.))','static_cast<unsigned char>(std::floor(((val + 1.) / 2.) * 255. + 0.5))')]),
('same','order',[(A,'return static_cast<int16_t>(val * 32768);','return static_cast<int16_t>(static_cast<int>(32768. * val));')]),
('same','bytes',[(B,'''    for (int i = 0; i < 4; i++) {

        // Grab current segment and send to iterator:
        byts[i] = static_cast<unsigned char>(val & 0xff);

        // Shift current value
        val >>= 8;
    }''','''    byts[3] = static_cast<unsigned char>(val >> 24);
    byts[0] = static_cast<unsigned char>(val);
    byts[1] = static_cast<unsigned char>((val >> 8) & 0xff);
    byts[2] = static_cast<unsigned char>((val & 0xff0000) >> 16);''')]),
('same','or32',[(B,'''    val = static_cast<int16_t>((static_cast<int16_t>(byts[1]) << 8) |
                               static_cast<unsigned char>(byts[0]));''','''    const unsigned char low = byts[0];
    const unsigned char high = byts[1];
    val = static_cast<int16_t>(low + 256 * high);''')]),
]
