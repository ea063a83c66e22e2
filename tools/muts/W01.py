W='src/io/wav.cpp'; H='include/maec/io/wav.hpp'; B='include/maec/audio_buffer.hpp'
MUTS=[
('bug','swap-rates',[(W,'int32_char(this->sample_rate, pbegin + 4);\n    int32_char(this->byte_rate, pbegin + 8);','int32_char(this->byte_rate, pbegin + 4);\n    int32_char(this->sample_rate, pbegin + 8);')]),
('bug','rate16',[(W,'this->byte_rate = char_uint32(data.begin() + 8);','this->byte_rate = static_cast<uint16_t>(char_uint32(data.begin() + 8));')]),
('bug','signed',[(W,'this->sample_rate = char_uint32(data.begin() + 4);','this->sample_rate = char_int16(data.begin() + 4);')]),
('bug','align-off',[(W,'int16_char(this->block_align, pbegin + 12);','int16_char(this->block_align, pbegin + 13);')]),
('bug','id3',[(W,'std::copy_n(this->chunk_id.data(), 4, byts);','std::copy_n(this->chunk_id.data(), 3, byts);')]),
('bug','read9',[(W,'stream.read(data.begin(), data.size());\n\n    // Load format data:','stream.read(data.begin(), data.size() - 1);\n\n    // Load format data:')]),
('bug','unk-size',[(W,'this->chunk_size = this->data.size();','this->chunk_size = this->size();')]),
('bug','unk-order',[(W,'    ChunkHeader::encode(stream);\n\n    //  Send vector contents to stream:\n\n    stream.write(data.data(), data.size());','    stream.write(data.data(), data.size());\n\n    ChunkHeader::encode(stream);')]),
('bug','be32',[(B,'        byts[i] = static_cast<unsigned char>(val & 0xff);','        byts[3 - i] = static_cast<unsigned char>(val & 0xff);')]),
('bug','signext',[(B,'static_cast<int16_t>((static_cast<int16_t>(byts[1]) << 8) |\n                               static_cast<unsigned char>(byts[0]))','static_cast<int16_t>((static_cast<int16_t>(byts[1]) << 8) |\n                               byts[0])')]),
('bug','fmtsize',[(H,'WavFormat() : ChunkHeader("fmt ", size() - ChunkHeader::size()) {}','WavFormat() : ChunkHeader("fmt ", size()) {}')]),
('bug','wave',[(H,'std::string format = "WAVE";','std::string format = "WAV ";')]),
('bug','csize',[(W,'this->chunk_size = char_int32(byts + 4);','this->chunk_size = char_int32(byts + 4) & 0x7fffffff;')]),
('bug','norm',[(W,'    this->bits_per_sample = char_int16(data.begin() + 14);','    this->bits_per_sample = char_int16(data.begin() + 14);\n    if (this->block_align == 0) this->block_align = 1;')]),
('same','loop',[(W,'std::copy_n(this->chunk_id.data(), 4, byts);','for (int i = 0; i < 4; ++i) { byts[i] = this->chunk_id[i]; }')]),
('same','manual',[(W,'    uint32_char(this->chunk_size, byts + 4);','    byts[4] = static_cast<char>(this->chunk_size);\n    byts[5] = static_cast<char>(this->chunk_size >> 8);\n    byts[6] = static_cast<char>(this->chunk_size >> 16);\n    byts[7] = static_cast<char>(this->chunk_size / 16777216);')]),
('same','assign',[(W,'std::copy_n(byts, 4, this->chunk_id.data());','this->chunk_id.assign(byts, 4);')]),
('same','twowrites',[(W,'    // Write data to the stream:\n\n    stream.write(data.begin(), data.size());','    stream.write(data.begin(), 8);\n    stream.write(data.begin() + 8, 4);')]),
('same','decodeh',[(W,'    ChunkHeader::decode(data.begin());\n\n    // Load string from chunk header:\n\n    chunk_id = ChunkHeader::chunk_id;\n    chunk_size = ChunkHeader::chunk_size;','    decode_it(data.begin());'),(H,'    void decode(char* byts);\n','    void decode(char* byts);\n    void decode_it(char* byts) { decode(byts); }\n')]),
('same','shift',[(B,'''    for (int i = 0; i < 4; i++) {

        // Grab current segment and send to iterator:
        byts[i] = static_cast<unsigned char>(val & 0xff);

        // Shift current value
        val >>= 8;
    }''','''    for (int i = 3; i >= 0; --i) {
        byts[i] = static_cast<unsigned char>((static_cast<uint32_t>(val) >> (8 * i)) & 0xff);
    }''')]),
]
