_S=[dict(name='format, channels, sample_rate, byte_rate, block_align, bits', meaning='format of a wave stream', where='include/maec/io/wav.hpp'), dict(name='chunk id / size', meaning='structure of the file', where='include/maec/io/wav.hpp')]
_M=[dict(name='decode/encode of ChunkHeader, WaveHeader, WavFormat, UnknownChunk', where='src/io/wav.cpp')]
PROPS += [
dict(id='W01', title='Wave structures are encoded and decoded bit for bit',
 statement='The chunk header, file header, format chunk and unknown chunk of a wave file are encoded to and decoded from exactly the bytes the RIFF format prescribes: identifiers of four characters, sizes and fields little-endian at their prescribed offsets and widths, for every value of every bit, with the prescribed default identifiers and sizes. Encoding leaves the structure unchanged, decoding changes only the fields it decodes, and an unknown chunk is read and written with as many bytes as its size says',
 quantifier=dict(over=['inputs'], text='every value of every field, bit by bit'),
 why_tests_cant='Tests encode one fixed header; a wrong byte order or shift is invisible whenever the upper bytes are zero.',
 anchors=dict(files=['src/io/wav.cpp', 'include/maec/io/wav.hpp'], state=_S, mechanism=_M),
 technique='bit-provenance abstract interpretation of the optimised intermediate representation: every output bit is traced to the input bit it comes from and compared with the RIFF layout',
 level_note='exact for all values: the abstract domain tracks each bit symbolically'),
dict(id='W02', title='Sample and byte conversions are little-endian, saturating and reversible',
 statement='The byte helpers move integers to and from bytes little-endian, bit for bit. Converting a sample to an integer format follows the scale of that format inside [-1,1] and saturates at its limits outside, without passing through a narrower number, and converting any integer of a format to a sample and back gives the same integer',
 quantifier=dict(over=['inputs'], text='every integer of the 8 and 16 bit formats, every sample value'),
 why_tests_cant='Tests convert a few values; off-by-one errors show only for some integers and wrap-around only outside the range.',
 anchors=dict(files=['src/audio_buffer.cpp', 'include/maec/audio_buffer.hpp'], state=[dict(name='sample', meaning='value in [-1,1]', where='include/maec/audio_buffer.hpp')], mechanism=[dict(name='char_int*, int*_char, *_mf and mf_* conversions', where='include/maec/audio_buffer.hpp')]),
 technique='bit provenance for the byte helpers; path-wise formulas extracted from the intermediate representation and evaluated exactly over every integer of the format for the conversions',
 level_note='rounding of the float operations is taken as exact; quantisation error is not claimed (N05)'),
dict(id='W04', title='Byte rate and frame size of a wave format follow every change',
 statement='Setting the channel count, sample rate, bits or bytes per sample of a wave format stores that value, keeps bits and bytes per sample in step (bytes are bits / 8), and leaves byte rate = channels * sample rate * bytes per sample and block align = channels * bytes per sample. Every setter changes nothing else, and the accessors return what was set',
 quantifier=dict(over=['inputs', 'histories'], text='all field values and orders of setting'),
 why_tests_cant='A derived value that is stale depends on the order in which the setters are called; tests use one order.',
 anchors=dict(files=['include/maec/io/wav.hpp'], state=_S, mechanism=[dict(name='setters of BaseWave', where='include/maec/io/wav.hpp')]),
 technique='path-wise effect summaries of every setter, evaluated exactly against the specified derived values',
 level_note='decided on the extracted expressions over a grid of field values; overflow of the products is out of scope'),
dict(id='W05', title='The wave writer produces a file whose headers match its data',
 statement='Starting a wave writer writes exactly the 44 bytes of a standard header with the format of the writer, writing a buffer appends every sample in order as the little-endian 16 bit or unsigned 8 bit conversion and counts exactly these bytes, and stopping sets the RIFF size at byte 4 to the total - 8 and the data size at byte 40 to the total - 44, all 32 bits, and then stops the stream, once. A writer that wrote nothing patches nothing, and a writer can be started again',
 quantifier=dict(over=['inputs', 'histories'], text='all formats, buffer sizes and total sizes'),
 why_tests_cant='Size fields with more than 16 bits and restarts need files tests do not write.',
 anchors=dict(files=['src/io/wav.cpp', 'include/maec/io/wav.hpp'], state=_S, mechanism=[dict(name='WaveWriter::start / stop / write_data', where='src/io/wav.cpp')]),
 technique='bit-provenance abstract interpretation of the header, path conditions of stop decided over a grid of sizes on an abstract file, loop summaries of the sample loop evaluated for several buffer sizes',
 level_note='the sample loop is decided from its one-iteration summary for buffers of up to seven samples; 24 and 32 bit samples are not supported by the code'),
dict(id='W03', title='The wave reader walks every chunk and delivers every sample in order',
 statement='Starting a wave reader starts its stream, takes the format fields from their bytes of the file header, skips the rest of a longer format chunk with its padding, resets its counters and takes the size of the file from the RIFF size + 8. Each buffer is filled by reading a chunk header exactly when one is needed, skipping other chunks with their padding byte, reading what is left of the data chunk or fits the buffer, counting every byte consumed and converting each 8 or 16 bit sample to its place. The walk ends at the end of the file, with a bad stream or a full buffer, and the stream is stopped at the end of the file',
 quantifier=dict(over=['inputs', 'histories'], text='all chunk sequences, chunk sizes (odd and with all 32 bits), buffer sizes and channel counts'),
 why_tests_cant='Tests read one well-formed file; odd chunks, foreign chunks, several data chunks and chunks larger than the buffer need particular files.',
 anchors=dict(files=['src/io/wav.cpp', 'include/maec/io/wav.hpp'], state=_S, mechanism=[dict(name='WaveReader::start / get_data / skip / done', where='src/io/wav.cpp')]),
 technique='abstract interpretation of the segments between loop headers (transfer function per step as expressions over fields, header bytes and running index), compared with the specified chunk-walk step over a grid of reader states; loop summaries for the conversions',
 level_note='the walk is decided one step at a time, so for any number of chunks; sizes over a grid of representatives'),
dict(id='W06', title='A file stream reports open failures and the end of its data by its state',
 statement='Starting a file stream opens the configured path once, in binary mode, and leaves it started if the file opened and in the error state if it did not, whatever happened before. A read or write transfers the given bytes once and, exactly when the file is not good afterwards, stops the stream, and stopping always leaves it stopped with the file closed. A stream is good exactly when it is initial or started and bad otherwise, seeking moves to the absolute position, and the configured path is stored and returned',
 quantifier=dict(over=['inputs', 'histories', 'faults'], text='every stream state and every outcome of opening and transferring'),
 why_tests_cant='A failed open, a short read or a failed write needs a broken file or a full disk at that moment.',
 anchors=dict(files=['src/io/mstream.cpp', 'include/maec/io/mstream.hpp'], state=[dict(name='mstate', meaning='init, started, stopped, err', where='include/maec/io/mstream.hpp')], mechanism=[dict(name='FIStream, FOStream start / stop / read / write / seek', where='src/io/mstream.cpp'), dict(name='BaseFStream, BaseMStream', where='include/maec/io/mstream.hpp')]),
 technique='typestate analysis: abstract interpretation of every method over the product of stream state and an automaton of the standard file stream with all its outcomes',
 level_note='exact over the finite state product; the behaviour of the standard file streams is an assumption'),
dict(id='W07', title='Memory streams transfer exactly the bytes asked for, inside their array',
 statement='Reading from a memory stream delivers the next bytes of the array, as many as asked for but never past its end, moves the position by the bytes delivered and stops the stream exactly when fewer were delivered than asked for. Writing overwrites from the position on, grows the array when it runs past the end, fills a gap before the position with zeros and moves the position by the bytes written. No access is outside the array or the bytes of the caller and a memory stream begins at position 0 with an array of the given size',
 quantifier=dict(over=['inputs', 'histories'], text='all array sizes, positions and counts'),
 why_tests_cant='Reads across the end, writes that straddle the end and positions past the end are combinations tests do not enumerate.',
 anchors=dict(files=['src/io/mstream.cpp', 'include/maec/io/mstream.hpp'], state=[dict(name='arr, index', meaning='bytes and position', where='include/maec/io/mstream.hpp')], mechanism=[dict(name='CharIStream::read, CharOStream::write', where='src/io/mstream.cpp')]),
 technique='bit-provenance abstract interpretation with symbolic contents; every byte is traced to its origin and every access bounds-checked, over all orders of size, position and count up to a bound and around every constant in the code',
 level_note='sizes are bounded (all orders up to 4 bytes quick, 9 thorough, plus 70 bytes and sizes around every constant of the code); contents are symbolic'),
dict(id='W08', title='ALSA devices, device lists and names are used in order and released',
 statement='Whatever each ALSA call returns, an ALSA device is configured and written to only while it is open and configured, is prepared again after an underrun, and is closed once, after its hardware is freed, and a failed open leaves nothing to close. Every block is sent once, as its own number of frames of 16 bit interleaved samples in the channel count the device was set to, and a sink without an open device sends nothing. Counting, finding and describing devices never reads outside the list, frees every list and name once, gives the first device of a name and its index, and reports a device that cannot be opened',
 quantifier=dict(over=['faults', 'histories', 'inputs'], text='all outcomes of every ALSA call, device lists of up to three entries, one to three channels, start / process / stop sequences'),
 why_tests_cant='No sound hardware is present when tests run; failed opens, underruns and nameless devices need particular hardware.',
 anchors=dict(files=['src/io/alsa_module.cpp', 'include/maec/io/alsa_module.hpp'], state=[dict(name='ALSABase::pcm', meaning='the open device', where='include/maec/io/alsa_module.hpp')], mechanism=[dict(name='ALSABase, DeviceInfo, ALSASink', where='src/io/alsa_module.cpp')]),
 technique='typestate analysis by abstract interpretation: handles, lists and names are automata, every sequence of call outcomes is enumerated and the samples stay symbolic',
 level_note='list lengths, channels and call sequences are bounded; the behaviour of the ALSA library is an assumption; starting twice without a stop is not claimed'),
]
