W='src/io/wav.cpp'
L16='''        for (auto iter = data->ibegin(); iter < data->iend(); ++iter) {

            int16_char(mf_int16(*iter),
                       odata.begin() +
                           iter.get_index() * this->get_bytes_per_sample());
        }'''
L8='''        for (auto iter = data->ibegin(); iter < data->iend(); ++iter) {

            odata[iter.get_index()] = static_cast<char>(mf_uchar(*iter));
        }'''
MUTS=[
('bug','seek36',[(W,'this->stream->seek(40);','this->stream->seek(36);')]),
('bug','minus',[(W,'uint32_char(this->get_size() - 8, sout.begin());','uint32_char(this->get_size(), sout.begin());')]),
('bug','int16size',[(W,'uint32_char(this->get_size() - 8, sout.begin());','int16_char(this->get_size() - 8, sout.begin());')]),
('bug','guard',[(W,'if (this->get_size() >= 36) {','if (this->get_size() > 44) {')]),
('bug','guard2',[(W,'if (this->get_size() >= 36) {','if (this->get_size() >= 36 && this->get_size() < 65536) {')]),
('bug','early-stop',[(W,'    // Determine if we need to correct data header size:\n\n    if (this->get_size() >= 36) {','    this->stream->stop();\n    if (this->get_size() >= 36) {')]),
('bug','inc',[(W,'    this->increment_size(wformat.size());','    this->increment_size(16);')]),
('bug','rates',[(W,'wformat.sample_rate = this->get_samplerate();','wformat.sample_rate = this->get_byterate();')]),
('bug','datasz',[(W,'    this->increment_size(odata.size());','    this->increment_size(data->size());')]),
('bug','signed8',[(W,'static_cast<char>(mf_uchar(*iter))','static_cast<char>(mf_char(*iter))')]),
('bug','stride',[(W,L16,L16.replace('this->get_bytes_per_sample()','this->get_blockalign()'))]),
('bug','restart',[(W,'    // Nothing has been written yet:\n\n    this->set_size(0);\n','')]),
('bug','lasts',[(W,L16,L16.replace('iter < data->iend()','iter < data->iend() - 1'))]),
('same','stop-order',[(W,'''    // Determine if we need to correct wave header size:

    if (this->get_size() >= 12) {

        // Set total size of file:

        this->stream->seek(4);

        // Encode the total size:

        uint32_char(this->get_size() - 8, sout.begin());

        // Write to file:

        this->stream->write(sout.begin(), 4);
    }
''',''),(W,'''    // Finally, stop the stream:

    this->stream->stop();
}

void WaveWriter::write_data''','''    if (this->get_size() >= 12) {
        this->stream->seek(4);
        uint32_char(this->get_size() - 8, sout.begin());
        this->stream->write(sout.begin(), 4);
    }
    this->stream->stop();
}

void WaveWriter::write_data''')]),
('same','helper',[(W,'void WaveWriter::stop() {\n\n    std::array<char, 4> sout = {};','static void patch(BaseMOStream* s, int at, uint32_t v) { std::array<char, 4> o = {}; s->seek(at); uint32_char(v, o.begin()); s->write(o.data(), 4); }\nvoid WaveWriter::stop() {\n\n    std::array<char, 4> sout = {};'),(W,'''        this->stream->seek(4);

        // Encode the total size:

        uint32_char(this->get_size() - 8, sout.begin());

        // Write to file:

        this->stream->write(sout.begin(), 4);''','        patch(stream, 4, get_size() - 8);')]),
('same','index',[(W,L16,'''        for (int i = 0; i < static_cast<int>(data->size()); ++i) {
            const int16_t v = mf_int16(*(data->begin() + i));
            odata[2 * i] = static_cast<char>(v & 0xff);
            odata[2 * i + 1] = static_cast<char>((v >> 8) & 0xff);
        }''')]),
('same','push',[(W,L8,'''        odata.clear();
        for (auto iter = data->ibegin(); iter < data->iend(); ++iter) {
            odata.push_back(static_cast<char>(mf_uchar(*iter)));
        }''')]),
('same','push16',[(W,'    std::vector<char> odata(data->size() * this->get_bytes_per_sample());','    std::vector<char> odata;\n    odata.reserve(data->size() * this->get_bytes_per_sample());'),(W,L16,'''        for (auto iter = data->ibegin(); iter < data->iend(); ++iter) {
            const int16_t v = mf_int16(*iter);
            odata.push_back(static_cast<char>(v & 0xff));
            odata.push_back(static_cast<char>((v >> 8) & 0xff));
        }'''),(W,L8,'''        odata.resize(data->size());
        for (auto iter = data->ibegin(); iter < data->iend(); ++iter) {

            odata[iter.get_index()] = static_cast<char>(mf_uchar(*iter));
        }''')]),
('same','ptr',[(W,L16,'''        auto pos = odata.begin();
        for (auto iter = data->ibegin(); iter < data->iend(); ++iter) {
            int16_char(mf_int16(*iter), pos);
            pos += 2;
        }''')]),
]
