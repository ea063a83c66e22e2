_na = lambda id, title, st, over, text, why, files, mech, reason: (PROPS.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, mechanism=mech))), NA.append(dict(property=id, reason=reason)))
_na('N01', 'Fourier round trips lose at most a few units in the last place',
    'Transforming a signal forward and back changes no sample by more than a bound that grows with the logarithm of the size.',
    ['inputs'], 'all lengths and signals', 'A few fixed signals are compared with a tolerance.', ['include/maec/dsp/ft.hpp'], [dict(name='fft/ifft', where='include/maec/dsp/ft.hpp')],
    'a bound on accumulated floating-point rounding over all inputs and sizes; no sound static argument within reach gives it (the exact-arithmetic identity is claimed under D08)')
_na('N02', 'Filters have the frequency response they were designed for',
    'The low, high and band filters attenuate and pass the frequency bands they are configured with.',
    ['inputs', 'configurations'], 'all cut-off frequencies and orders', 'Only coefficient snapshots are compared.', ['include/maec/dsp/iir.hpp', 'include/maec/dsp/kernel.hpp'], [dict(name='coefficient formulas', where='include/maec/dsp/iir.hpp')],
    'a statement about the magnitude of a transfer function over a continuum of frequencies: quantitative real analysis, not decidable by dataflow over the source')
_na('N03', 'Measured latency is the true wall-clock processing latency',
    'The latency statistics equal the real time the upstream modules took.',
    ['schedules'], 'all machine loads and schedules', 'Wall-clock time differs on each run.', ['src/meta_audio.cpp', 'src/chrono.cpp'], [dict(name='LatencyModule', where='src/meta_audio.cpp')],
    'depends on the operating system clock and scheduler; the bookkeeping around the clock reads is claimed under C09')
_na('N04', 'A parallel stage never starves its consumer',
    'While upstream is faster than the consumer, the consumer never waits for longer than one upstream processing step.',
    ['schedules'], 'all thread schedules', 'Timing-dependent.', ['include/maec/parallel.hpp'], [dict(name='ParallelModule', where='include/maec/parallel.hpp')],
    'liveness under the scheduler\'s fairness is not a property of the source text; wake-up and predicate coverage are claimed under P02')
_na('N05', 'Sample values survive a format round trip within one quantisation step',
    'Converting a floating-point sample to an integer format and back changes it by at most one quantisation step.',
    ['inputs'], 'all sample values in range', 'Only a table of values is tested.', ['include/maec/audio_buffer.hpp', 'src/audio_buffer.cpp'], [dict(name='sample conversions', where='src/audio_buffer.cpp')],
    'a numerical error bound over floating-point rounding; the static rules claim only the range and scaling of the conversions (W02) and the width that is sent or written (W05, W08)')
