F = 'src/io/alsa_module.cpp'
def e(o, n): return (F, o, n)
MUTS = [
 ('bug', 'leak-io', [e("    free(io);\n", "")]),
 ('bug', 'free-early', [e("        std::string temp(io);", "        free(io);\n        std::string temp(io);")]),
 ('bug', 'no-close-update', [e("    snd_pcm_hw_free(pcm);\n    snd_pcm_close(pcm);", "    snd_pcm_hw_free(pcm);")]),
 ('bug', 'io-swap', [e('if (temp == "Output")', 'if (temp == "Input")'), e('else if (temp == "Input")', 'else if (temp == "Output")')]),
 ('bug', 'count-leak', [e("    snd_device_name_free_hint(hints);\n\n    // Finally, return the number", "    // Finally, return the number")]),
 ('bug', 'free-moved', [e("    snd_device_name_free_hint(hints);\n\n    // Finally, return the number", "    snd_device_name_free_hint(n);\n\n    // Finally, return the number")]),
 ('bug', 'id-off', [e("n = hints + index;", "n = hints + index + 1;")]),
 ('bug', 'id-bound', [e("index >= this->get_device_count()", "index > this->get_device_count()")]),
 ('bug', 'use-after-free-list', [e("    DeviceInfo info(n, index);\n\n    // Free the hint:\n\n    snd_device_name_free_hint(hints);", "    snd_device_name_free_hint(hints);\n    DeviceInfo info(n, index);\n")]),
 ('bug', 'name-last', [e("            info = DeviceInfo(n, id);\n\n            break;", "            info = DeviceInfo(n, id);\n")]),
 ('bug', 'name-id', [e("        ++id;\n", "        if (!hname.empty()) ++id;\n")]),
 ('bug', 'name-return', [e("            info = DeviceInfo(n, id);\n\n            break;", "            return DeviceInfo(n, id);")]),
 ('bug', 'start-nofail', [e("        this->pcm = nullptr;\n        this->device.load_fail = true;\n\n        return;", "        this->device.load_fail = true;")]),
 ('bug', 'frames', [e("(buff.channel_capacity())", "(buff.size())")]),
 ('bug', 'stop-keeps', [e("    snd_pcm_close(this->pcm);\n\n    this->pcm = nullptr;", "    snd_pcm_close(this->pcm);")]),
 ('bug', 'close-first', [e("    snd_pcm_hw_free(this->pcm);\n\n    // Close the PCM device:\n\n    snd_pcm_close(this->pcm);", "    snd_pcm_close(this->pcm);\n    snd_pcm_hw_free(this->pcm);")]),
 ('bug', 'no-prepare', [e("        std::cout << \"ALSA Underrun (Before)\" << std::endl;\n\n        snd_pcm_prepare(this->pcm);", ""), e("        // Underrun occurred\n\n        std::cout << \"ALSA Underrun (After)\" << std::endl;\n        snd_pcm_prepare(this->pcm);", "")]),
 ('bug', 'format', [e("SND_PCM_FORMAT_S16);", "SND_PCM_FORMAT_S32);")]),
 ('bug', 'access', [e("    int a = snd_pcm_hw_params_set_access(pcm, params,\n                                         SND_PCM_ACCESS_RW_INTERLEAVED);\n    int b", "    int a = snd_pcm_hw_params_set_access(pcm, params,\n                                         SND_PCM_ACCESS_RW_NONINTERLEAVED);\n    int b")]),
 ('bug', 'no-commit', [e("    int commit = snd_pcm_hw_params(pcm, params);\n\n    snd_pcm_hw_params_get_periods(params, &(this", "    int commit = 0;\n\n    snd_pcm_hw_params_get_periods(params, &(this")]),
 ('bug', 'seq', [e("squish_inter(", "squish_seq(")]),
 ('same', 'drop-instead', [e("std::cout << \"ALSA Underrun (Before)\" << std::endl;", "")]),
 ('same', 'prepare-once', [e("        std::cout << \"ALSA Underrun (After)\" << std::endl;\n        snd_pcm_prepare(this->pcm);", "")]),
 ('same', 'while', [e("    for (; *n != nullptr; ++n) {\n\n        ++num;\n    }", "    while (n[num] != nullptr) {\n        num += 1;\n    }")]),
 ('same', 'io-string', [e("this->name = n != nullptr ? std::string(n) : std::string();", "if (n != nullptr) this->name = n; else this->name.clear();")]),
 ('same', 'local', [e("    std::vector<int16_t> temp(buff.size());", "    const auto total = buff.size();\n    std::vector<int16_t> temp(total);")]),
 ('same', 'break-else', [e("            info = DeviceInfo(n, id);\n\n            break;", "            DeviceInfo found(n, id);\n            info = found;\n            break;")]),
 ('same', 'helper', [e("    this->return_code =\n        snd_pcm_writei(this->pcm, reinterpret_cast<int16_t*>(temp.data()),\n                       static_cast<snd_pcm_uframes_t>(buff.channel_capacity()));", "    const int16_t* raw = temp.data();\n    snd_pcm_uframes_t frames = temp.size() / buff.channels();\n    this->return_code = snd_pcm_writei(this->pcm, raw, frames);")]),
 ('same', 'compare', [e('temp == "Output"', 'temp.compare("Output") == 0')]),
]
