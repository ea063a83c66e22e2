W='src/io/wav.cpp'; H='include/maec/io/wav.hpp'
MUTS=[
('bug','nopad',[(W,'''        if (this->needs_chunk) {

            this->skip(head.chunk_size & 1U);
        }
''','')]),
('bug','nopad2',[(W,'''                this->skip(this->head.chunk_size & 1U);

                continue;''','''                continue;''')]),
('bug','lt',[(W,'if (chunk_bytes <= buffer_bytes) {','if (chunk_bytes < buffer_bytes) {')]),
('bug','nototal',[(W,'        this->total_read += to_read;\n','')]),
('bug','noreset',[(W,'''            // Set the number of bytes read from this chunk:

            this->chunk_read = 0;
''','')]),
('bug','noneeds',[(W,'            this->needs_chunk = false;\n','')]),
('bug','int',[(W,'static_cast<int64_t>(head.chunk_size) - this->chunk_read','static_cast<int32_t>(head.chunk_size) - this->chunk_read')]),
('bug','full',[(W,'static_cast<int64_t>(this->buffer_size * this->get_channels() -\n                                 read)','static_cast<int64_t>(this->buffer_size * this->get_channels())')]),
('bug','frames',[(W,'while (!this->done() && read < buffer_size * this->get_channels()) {','while (!this->done() && read < buffer_size) {')]),
('bug','id',[(W,'this->head.chunk_id != "data"','this->head.chunk_id == "LIST"')]),
('bug','stop1',[(W,'if (this->total_read >= static_cast<u_int32_t>(this->get_size())) {\n\n        // Stop this','if (this->total_read > static_cast<u_int32_t>(this->get_size())) {\n\n        // Stop this')]),
('bug','half',[(W,'i < static_cast<int>(tdata.size() / 2)','i < static_cast<int>(tdata.size() / 2) - (this->needs_chunk ? 1 : 0)')]),
('bug','char8',[(W,'const double val = uchar_mf(i);','const double val = char_mf(i);')]),
('bug','crskip',[(W,'        this->chunk_read += to_read;\n','        this->chunk_read = to_read;\n')]),
('bug','skip512',[(W,'num -= piece;','num -= std::min(num, 512U - piece % 2);')]),
('bug','skiptot',[(W,'        this->total_read += piece;\n','')]),
('bug','size',[(W,'this->set_size(head.chunk_size + 8);','this->set_size(head.chunk_size);')]),
('bug','ext',[(W,'''        this->skip(chead.chunk_size & 1U);
''','')]),
('bug','restart',[(W,'''    this->chunk_read = 0;
    this->needs_chunk = true;

    // First''','''    this->chunk_read = 0;

    // First''')]),
('bug','order',[(W,'    this->set_byterate(form.byte_rate);\n    this->set_blockalign(form.block_align);\n    this->set_bits_per_sample(form.bits_per_sample);','    this->set_bits_per_sample(form.bits_per_sample);\n    this->set_byterate(form.byte_rate);\n    this->set_blockalign(form.block_align);')]),
('bug','fmt8',[(W,'    this->total_read += 16;','    this->total_read += 24;')]),
('same','minexpr',[(W,'''        int to_read = 0;

        if (chunk_bytes <= buffer_bytes) {

            // This chunk is NOT big enough to fill a buffer
            // We read all we can and then read a new chunk

            this->needs_chunk = true;

            to_read = static_cast<int>(chunk_bytes);
        }

        else {

            // Chunk is big enough, read size of vector:

            to_read = static_cast<int>(buffer_bytes);
        }
''','''        const int to_read = static_cast<int>(std::min(buffer_bytes, chunk_bytes));
        if (!(buffer_bytes < chunk_bytes)) { this->needs_chunk = true; }
''')]),
('same','else',[(W,'''                this->skip(this->head.chunk_size & 1U);

                continue;
            }''','''                this->skip(this->head.chunk_size & 1U);
            }
            else {'''),(W,'''            this->chunk_read = 0;
        }

        // Determine which''','''            this->chunk_read = 0;
            }
            if (this->needs_chunk) continue;
        }

        // Determine which''')]),
('same','odd',[(W,'                this->skip(this->head.chunk_size);\n\n                // Chunks of odd size are padded:\n\n                this->skip(this->head.chunk_size & 1U);','                this->skip(this->head.chunk_size);\n                if (this->head.chunk_size % 2 == 1) { this->skip(1); }')]),
('same','compare',[(W,'this->head.chunk_id != "data"','this->head.chunk_id.compare("data") != 0')]),
('same','helper',[(W,'BufferPointer WaveReader::get_data() {','static void conv16(std::vector<char>& tdata, AudioBuffer& b, int& read) {\n    const int n = static_cast<int>(tdata.size()) / 2;\n    for (int i = 0; i < n; ++i) { b.at(read + i) = int16_mf(char_int16(tdata.data() + 2 * i)); }\n    read += n;\n}\n\nBufferPointer WaveReader::get_data() {'),(W,'''            for (int i = 0; i < static_cast<int>(tdata.size() / 2); ++i) {

                // Read this int16:

                auto val =
                    char_int16(tdata.begin() + static_cast<int64_t>(i) * 2);

                // Convert to mf:

                auto mf_val = int16_mf(val);

                // Add value to final vector:

                bpoint->at(read++) = mf_val;
            }''','            conv16(tdata, *bpoint, read);')]),
('same','skipwhile',[(W,'''    while (num > 0 && !this->stream->bad()) {

        const uint32_t piece =
            std::min(num, static_cast<uint32_t>(data.size()));
''','''    for (;;) {
        if (num == 0 || this->stream->bad()) { break; }
        uint32_t piece = data.size();
        if (num < piece) { piece = num; }
''')]),
('same','total-local',[(W,'int read = 0;','int read = 0;\n    const int wanted = buffer_size * this->get_channels();'),(W,'while (!this->done() && read < buffer_size * this->get_channels()) {','while (read < wanted && !this->done()) {')]),
('same','forrange',[(W,'''            for (char i : tdata) {

                // Convert into mf:

                const double val = uchar_mf(i);

                // Add to buffer:

                bpoint->at(read++) = val;
            }''','''            for (std::size_t k = 0; k < tdata.size(); ++k, ++read) {
                bpoint->at(read) = uchar_mf(static_cast<unsigned char>(tdata[k]));
            }''')]),
]
