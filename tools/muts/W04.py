H='include/maec/io/wav.hpp'
MUTS=[
('bug','chan-align',[(H,'this->set_byterate(this->channels * this->get_samplerate() * this->get_bytes_per_sample());\n        this->set_blockalign(this->channels * this->get_bytes_per_sample());','this->set_byterate(this->channels * this->get_samplerate() * this->get_bytes_per_sample());')]),
('bug','order',[(H,'this->bits_per_sample = bps; this->bytes_per_sample = bps / 8;\n        this->set_byterate(this->bytes_per_sample * this->get_samplerate() * this->get_channels());','this->set_byterate(this->bytes_per_sample * this->get_samplerate() * this->get_channels()); this->bits_per_sample = bps; this->bytes_per_sample = bps / 8;')]),
('bug','up',[(H,'this->bytes_per_sample = bps / 8;','this->bytes_per_sample = (bps + 7) / 8;')]),
('bug','bits',[(H,'this->bits_per_sample = bps * 8;','this->bits_per_sample = bps << 2;')]),
('bug','guard',[(H,'void set_samplerate(int samp) { this->sample_rate = samp;','void set_samplerate(int samp) { if (samp == this->sample_rate) { return; } this->sample_rate = samp; if (samp > 48000) return;')]),
('bug','rate-bits',[(H,'this->set_byterate(this->sample_rate * this->get_channels() * this->get_bytes_per_sample());','this->set_byterate(this->sample_rate * this->get_channels() * this->get_bits_per_sample());')]),
('bug','size',[(H,'void set_size(int size) { this->size = size; }','void set_size(int size) { this->size = size; this->block_align = 0; }')]),
('same','assoc',[(H,'this->set_byterate(this->bytes_per_sample * this->get_samplerate() * this->get_channels());','this->set_byterate(this->get_channels() * (this->get_samplerate() * (bps / 8)));')]),
('same','helper',[(H,'    void set_channels(int chan) { this->channels = chan;\n        this->set_byterate(this->channels * this->get_samplerate() * this->get_bytes_per_sample());\n        this->set_blockalign(this->channels * this->get_bytes_per_sample());','    void derive() { block_align = channels * bytes_per_sample; byte_rate = block_align * sample_rate; }\n    void set_channels(int chan) { this->channels = chan;\n        derive();')]),
('same','shift',[(H,'this->bits_per_sample = bps * 8;','this->bits_per_sample = bps << 3;')]),
('same','early',[(H,'void set_channels(int chan) { this->channels = chan;','void set_channels(int chan) { if (chan == 0) { channels = 0; byte_rate = 0; block_align = 0; return; } this->channels = chan;')]),
]
