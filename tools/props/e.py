_S=[dict(name='timer', meaning='sample position of the envelope', where='include/maec/envelope.hpp'), dict(name='start_time/stop_time/value_start/value_stop', meaning='curve parameters', where='include/maec/envelope.hpp'), dict(name='env_index/current', meaning='stage of a chain envelope', where='include/maec/envelope.hpp')]
PROPS += [
dict(id='E02', title='Envelopes follow their curve at the timer position, stage after stage',
 statement='Every sample an envelope writes is its curve at the timer\'s time before that sample, and the timer moves by the number of samples written: the start value (constant); the start value for the whole samples remaining to the stop time, clamped to the cycle, then the stop value (set value); the straight line or the exponential (start value times (stop/start value)^fraction) from start to stop value over start to stop time. A chain envelope asks the current stage for at least one and at most the samples left in the cycle or until its stop time (a negative stop time never ends), places them in order, moves its timer with them and enters the next stage, handing over its timer, exactly when the stop time is reached; gaps between stages and the end hold the previous stop value, an ADSR envelope is 0 to 1 over the attack, 1 to sustain over the decay, then sustain, and starting a timed envelope makes its inner one run from now for the duration',
 quantifier=dict(over=['inputs', 'histories', 'configurations'], text='all times, values, frame durations, cycle sizes and any number of cycles'),
 why_tests_cant='The interesting cases are stop times that fall between samples, at a cycle boundary or in the past, and gaps between stages; tests use a few round numbers.',
 anchors=dict(files=['src/envelope.cpp', 'include/maec/envelope.hpp'], state=_S, mechanism=[dict(name='process of the envelopes, ChainEnvelope::next_envelope / create_internal / optimize, ADSREnvelope::start, DurationEnvelope::start', where='src/envelope.cpp')]),
 technique='path-wise symbolic summaries and one symbolic loop iteration, compared with the specified curve and hand-over by exact rational evaluation of the extracted terms over a grid that orders the times in every way',
 level_note='decides the extracted expressions in exact arithmetic; rounding is out of scope; with more than one channel a chain envelope leaves the tail of the cycle empty (known finding)'),
]
