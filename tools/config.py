"""What each check runs: per tier a list of legs (build variant, seeds, time cap in seconds)."""
ASSUMPTIONS = [
    "the default build configuration of CMakeLists.txt (44.1 kHz, 16-bit samples, 64 voices, filter, DLS, reverb, chorus)",
    "one host thread per library instance: the library has no locks and documents none",
    "seeded search: absence of a violation is evidence over the seeds run, not a proof",
]
# the other documented build options: 22050 Hz output, 8-bit samples, few and many voices. Judges that need the spectral probes of the default build stay out.
OTHER = {i: ["fast-22k", "fast-8bit"] for i in "T01 T02 T03 T05 D01 D02 D03 W01 S01 M02 M03 M04 V05 L03 L04 L05 E01 S02 S03".split()}
OTHER.update({i: ["fast-22k"] for i in "V04 V06 L01 L02".split()}, T06=["fast-8bit"], V02=["fast-8bit"], M01=["asan-22k8"])
# MAX_VOICES: few voices where the judge does not assume that all notes fit, many for the laws of limits
for _i in "T01 T02 T03 T04 T05 T06 V02 V03 V06 D01 D02 L01 L04 L05 M02 M03 S01 S02 S03 W01 E01".split(): OTHER[_i] = OTHER.get(_i, []) + ["fast-v8"]
for _i in "V03 V04 V05 V06 D03 L03 M04".split(): OTHER[_i] = OTHER.get(_i, []) + ["fast-v200"]
OTHER["M01"] += ["asan-v8"]
OTHER["D04"] = ["fast-22k", "fast-8bit", "fast-v8"]; OTHER["V07"] = ["fast-22k", "fast-8bit", "fast-v200"]
def legs(qs, qt, ts=None, tt=780, v="fast"):
    return dict(quick=[(v, qs, qt)], thorough=[(v, ts or qs * 40, tt)], base=qs)
PROPS = {
 "T01": dict(legs(16000, 60), rule="one seed = one generated song (structure, encoding, tempo map, polyphony, companion stream); distinct = different recorded event/slice history"),
 "T02": dict(legs(16000, 60), rule="one seed = one song and one schedule of scans and queries; distinct = different recorded event/state history"),
 "T03": dict(legs(16000, 60), rule="one seed = one song and one schedule of pauses and resumes; distinct = different recorded event/state history"),
 "T04": dict(legs(16000, 60), rule="one seed = one song and one history of seeks, pauses and renders, or one probe song compared with its played-through twin; distinct = different recorded history"),
 "T05": dict(legs(16000, 60), rule="one seed = one song and one schedule of repeat counts and transport calls, or one probe song whose passes are compared sample by sample; distinct = different recorded history"),
 "T06": dict(legs(16000, 60), rule="one seed = one song and one schedule of rate changes, or one held probe note; distinct = different recorded history"),
 "M01": dict(legs(40000, 60, ts=2000000, v="asan"), rule="one seed = one set of generated and mutated files, one history of public calls (valid and invalid arguments) with read faults, allocation failures and host yields; distinct = different recorded history", hang=40),
 "M02": dict(legs(80000, 60, ts=800000), rule="one seed = one call history with allocation failures placed inside its calls, compared call by call with its twin without them; distinct = different recorded history in which at least one allocation failed"),
 "M03": dict(legs(60000, 60, ts=800000), rule="one seed = one history of open, prepare, load, play, fault, close and shutdown calls followed by the capacity probe; distinct = different recorded history"),
 "V01": dict(legs(60000, 60), rule="one seed = one history of stream and master volume settings around probe notes or over a generated song compared with its default-volume twin; distinct = different measured level history"),
 "V02": dict(legs(60000, 60), rule="one seed = one history of transposition settings around probe notes of one or two players, melodic and drum; distinct = different measured pitch history"),
 "V03": dict(legs(20000, 90), rule="one seed = one history of notes, limits, priorities, pauses, seeks and stream closures on one or two players; distinct = different history of the sets of sounding notes"),
 "V04": dict(legs(24000, 90), rule="one seed = one history of notes, pedals, mute messages, resets and transport calls on one or two players; distinct = different history of sounding notes"),
 "L03": dict(legs(24000, 90), rule="one seed = one set of notes on built-in programs and drums with their settings (pitch, level, hold, exclusive drums, vibrato), or one history of notes and controllers on up to six channels played again later on other channels and channel by channel; distinct = different measured pitches, levels or audio"),
 "L04": dict(legs(24000, 90), rule="one seed = one collection with its oscillators, modulation envelope and filter, one note and one history of wheel and pressure; distinct = different measured pitch and rendered history"),
 "D04": dict(legs(40000, 60), rule="one seed = one history of streams, collections, settings, refused calls and faults in an instance, then one closing scene played by it and by a new instance; distinct = different recorded history"),
 "V07": dict(legs(40000, 60), rule="one seed = one song with every kind of channel message and one exchange of its melodic channels, from a file or live, with or without a collection; distinct = different rendered audio"),
 "L05": dict(legs(60000, 90), rule="one seed = one sound library (the built-in one or a generated one), one history of notes, library changes and refused libraries before it, one note and its wheel and pressure; distinct = different measured pitch, level and balance history"),
 "V05": dict(legs(30000, 90), rule="one seed = one history of notes, controllers, registered parameters and bank and program choices on one to four channels of one player, measured channel by channel, against its twin with independent settings in the opposite order and against the sum of the channels played alone; distinct = different audio"),
 "V06": dict(legs(30000, 90), rule="one seed = one history of master volume, GM System On, scalable-polyphony, malformed and foreign system-exclusive messages around notes, voice-limit changes and seeks on one or two players; distinct = different history of the sets of sounding notes"),
 "D03": dict(legs(20000, 90), rule="one seed = one schedule of settings, transport calls, notes, closures and openings over two to four streams, against the solo run of each; distinct = different recorded history and loudness"),
 "L02": dict(legs(20000, 90), rule="one seed = one history of collection loads (global, per stream, failing), notes, openings and closures; distinct = different recorded history"),
 "M04": dict(legs(20000, 90), rule="one seed = one set of streams with read faults against the solo runs, or one faulted file compared with its healed and unfaulted twins; distinct = different recorded history"),
 "D01": dict(legs(24000, 90), rule="one seed = one history of public calls on one to three interleaved instances, run with a clean heap, with dirty heap, stack and clock, again, and instance by instance; distinct = different results and samples"),
 "D02": dict(legs(80000, 90), rule="one seed = one sequence of MIDI messages on one to three interactive streams and one way of cutting, merging, compressing and littering the bytes; distinct = different audio"),
 "W01": dict(legs(10000, 60), rule="one seed = one set of songs, one pattern of host yields and load limits and one schedule of settings, some inside an unfinished step, compared slice by slice with the undisturbed twin; distinct = different audio and number of steps"),
 "E01": dict(legs(8000, 60), rule="one seed = one music history and one schedule of valid and invalid effect parameters, compared sample by sample with the twin without effects, or two levels or two orders of one setting; distinct = different audio"),
 "L01": dict(legs(12000, 90), rule="one seed = one generated sound collection (instruments, regions, waves, articulations, one of its byte layouts) and one history of notes on it, measured note by note and compared with the plainest layout of the collection; distinct = different audio"),
 "S02": dict(legs(80000, 90), rule="one seed = one history of valid and invalid calls on one or two instances, every result compared with the documented state rules, and with the twin history that leaves out the refused calls and the queries; distinct = different results"),
 "S03": dict(legs(24000, 90), rule="one seed = one history of settings, queries, opens, closes, restarts and allocation failures, every readable setting compared with the last accepted value; distinct = different results"),
 "S01": dict(legs(100000, 90), rule="one seed = one to three songs with text events and one history of callback registrations, pauses, rate changes, closures; distinct = different delivered texts"),
}
for _i, _p in PROPS.items():
    _o = OTHER.get(_i, []); _v, _n, _t = _p["thorough"][0]
    if _o: _p["thorough"] = [(_v, _n, _t - 90 * len(_o))] + [(o, _p["base"] * 4, 80) for o in _o]
TECH = {
 "L01": "collection model of level, envelope, pitch, pan and purity; bit-identical twin in another byte layout",
 "W01": "undisturbed twin, progress bound", "E01": "twin without effects, proportionality of two levels",
 "S02": "state-rule model of every result, and twin run without the refused calls", "S03": "last-accepted-value model",
 "D01": "bit-identical twin runs under different memory, clock and company", "D02": "bit-identical twin with regrouped bytes", "S01": "song model, full-buffer twin and guarded buffers",
 "D03": "sum of the solo runs", "L02": "collection told by the tone, and sum of the solo runs", "M04": "sum of the solo runs, unfaulted twin",
 "V05": "channel model of level, pan, pitch and vibrato; reordered twin and sum of the solo runs",
 "L03": "equal temperament, square laws and balance for every built-in sound; shifted, channel-permuted and channel-by-channel twins",
 "L04": "an executable model of the oscillators, modulation envelope and filter, evaluated at every slice and compared with the measured pitch and level of the note",
 "L05": "an executable model of the wavetable synthesizer (bank and region choice, envelopes, oscillator, loop and end of the wave, filter, pan) compared slice by slice with the measured note",
 "D04": "call-by-call and sample-by-sample comparison of a used instance with a new one", "V07": "sample-by-sample comparison with the same song on other channels",
 "V06": "sounding notes and levels found by spectrum, against a model of masks, limits and master volume",
 "V03": "sounding notes found by spectrum, against a voice-limit model", "V04": "sounding notes found by spectrum, against a note and pedal model",
 "V01": "probe-tone levels against the documented decibel law", "V02": "probe-tone frequencies against the equal-tempered model",
 "M01": "sanitizer-built simulator as the invariant", "M02": "twin run without the allocation fault", "M03": "heap and device accounting, capacity probe against a fresh instance",
 "T01": "executable song model and interactive-stream twin", "T02": "executable song model, scanned and unscanned playback compared sample by sample", "T03": "executable song model with paused time", "T04": "song model, played-through twin, rewound playback compared sample by sample", "T05": "song model, pass-by-pass comparison", "T06": "song model with rate map",
}
NA = {
 "N01": "no concurrency, time, I/O fault or multi-party behaviour: a pure function of argv in an example program, outside the library the simulator runs",
 "N02": "no schedule, fault or history can change it: a constant record",
}
