F = 'include/maec/filter_module.hpp'
MUTS = [
    ('bug', 'tail-resize', [(F, 'this->overlap_tail.resize(channels);', 'this->overlap_tail.resize(1);'), (F, 'auto& tail = this->overlap_tail[chan];', 'auto& tail = this->overlap_tail[0];')]),
    ('bug', 'no-clear', [(F, '        this->overlap_tail.clear();\n', '')]),
    ('bug', 'tail-overwrite', [(F, 'conv_out[i] += tail[i];', 'conv_out[i] += i < input_size ? tail[i] : 0;')]),
    ('bug', 'tail-cut', [(F, 'tail.assign(conv_out.begin() + input_size, conv_out.end());', 'tail.assign(conv_out.begin() + input_size, conv_out.begin() + input_size + std::min(input_size, kernel_size - 1));')]),
    ('bug', 'conv-len', [(F, 'std::max<std::size_t>(\n                    dsp::conv::length_conv(input_size, kernel_size),\n                    tail.size()),', 'dsp::conv::length_conv(input_size, kernel_size),')]),
    ('bug', 'chan-index', [(F, '*(ibuff.ibegin() + (i * channels + chan)) = conv_out[i];', '*(ibuff.ibegin() + (chan * input_size + i)) = conv_out[i];')]),
    ('bug', 'start-tail', [(F, '        this->generate_kernel();\n        this->overlap_tail.clear();', '        if (this->kernel == nullptr) { this->generate_kernel();\n        this->overlap_tail.clear(); }')]),
    ('bug', 'hp-stop', [(F, 'this->get_stop_freq() / this->get_info()->sample_rate', 'this->get_start_freq() / this->get_info()->sample_rate')]),
    ('bug', 'bandpass', [(F, 'if (type == dsp::consts::FilterType::BandPass) {', 'if (type == dsp::consts::FilterType::BandReject) {')]),
    ('bug', 'start-rate', [(F, 'this->get_start_freq() / this->get_info()->sample_rate', 'this->get_start_freq() / dsp::consts::SAMPLE_RATE')]),
    ('bug', 'band-first', [(F, 'for (int i = 0; i < final_size; ++i) {', 'for (int i = 2; i < final_size; ++i) {')]),
    ('bug', 'hkern', [(F, 'dsp::kern::spectral_inversion(hkern.ibegin(), final_size);', 'dsp::kern::spectral_inversion(hkern.ibegin(), final_size - 2);')]),
    ('bug', 'set-stop', [(F, 'void set_stop_freq(double freq) { this->stop_freq = freq; }', 'void set_stop_freq(double freq) { this->stop_freq = freq > start_freq ? freq : start_freq; }')]),
    ('same', 'signal-copy', [(F, '                signal[i] = *(ibuff.ibegin() + (i * channels + chan));', '                signal[i] = ibuff.at(static_cast<int>(chan), static_cast<int>(i));')]),
    ('same', 'out-at', [(F, '*(ibuff.ibegin() + (i * channels + chan)) = conv_out[i];', 'ibuff.at(chan, i) = conv_out[i];')]),
    ('same', 'newbuf', [(F, '        this->set_buffer(std::move(ibuff));', '        auto nbuff = AudioBuffer(input_size, static_cast<int>(channels), ibuff.get_samplerate());\n        std::copy(ibuff.ibegin(), ibuff.iend(), nbuff.ibegin());\n        this->set_buffer(std::move(nbuff));')]),
    ('same', 'outconv', [(F, 'dsp::conv::input_conv(signal.begin()', 'dsp::conv::output_conv(signal.begin()')]),
    ('same', 'tail-transform', [(F, '            for (std::size_t i = 0; i < tail.size(); ++i) {\n                conv_out[i] += tail[i];\n            }', '            std::transform(tail.begin(), tail.end(), conv_out.begin(), conv_out.begin(), [](double a, double b) { return a + b; });')]),
    ('same', 'tail-vector', [(F, 'tail.assign(conv_out.begin() + input_size, conv_out.end());', 'tail = std::vector<double>(conv_out.begin() + input_size, conv_out.end());')]),
    ('same', 'switch', [(F, 'if (type == dsp::consts::FilterType::HighPass) {', 'const bool high = dsp::consts::FilterType::HighPass == type;\n if (high) {')]),
    ('same', 'band-add', [(F, '                *(kern->ibegin() + i) =\n                    *(kern->ibegin() + i) + *(hkern.ibegin() + i);', '                kern->at(i) += hkern.at(i);')]),
    ('same', 'start-order', [(F, '        this->generate_kernel();\n        this->overlap_tail.clear();', '        this->overlap_tail.clear();\n        this->generate_kernel();')]),
]
