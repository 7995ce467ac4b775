#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they can be edited comfortably)."""
import json, os
L = "arm-wt-22k/lib_src/"; H = "arm-wt-22k/host_src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

T = "The 15 tests play five well-formed files start to finish, with one seek and one pause each; "

prop("M01", "No input, call order or fault corrupts memory, hangs or ends the process",
 "Whatever bytes the MIDI files, sound collections and interactive messages contain, and in whatever order and with whatever arguments the public calls on open handles arrive, the library never touches memory outside its own objects, never divides by zero, never ends the host process, and every call returns after a bounded amount of work. This stays true when reads fail or come back short and when allocations fail at any point.",
 ["inputs", "programs", "fault_sequences"], "every byte string as file, collection or message stream; every sequence of public calls on live handles; every pattern of read and allocation faults",
 T + "a memory error needs a hostile byte, an odd call order or a fault at one exact point.",
 [L + "eas_smf.c", L + "eas_mdls.c", L + "eas_midi.c", L + "eas_public.c", L + "eas_voicemgt.c", L + "eas_wtsynth.c", L + "eas_dlssynth.c", L + "eas_wtengine.c", H + "eas_hostmm.c"],
 [("length and bounds checks of the SMF parser", L + "eas_smf.c SMF_ParseMetaEvent, SMF_ParseHeader"), ("two-pass size checks of the DLS parser", L + "eas_mdls.c DLSParser"), ("events-per-slice cap", L + "eas_public.c EAS_ParseEvents"), ("sample range checks", L + "eas_wtengine.c")],
 observe=["AddressSanitizer and UBSan reports", "exit seam", "CPU budget per run", "results of every call"])

prop("M02", "A failed allocation is reported and leaves everything usable",
 "When an allocation fails inside any call, that call reports an error and the rest of the instance keeps working as if the call had not been made: streams already open sound exactly the same, and the same call succeeds when tried again once memory is available. Nothing allocated on the way to the failure stays behind.",
 ["fault_sequences", "histories"], "every allocation of every call in every history of calls, failing once or repeatedly",
 "No test makes an allocation fail.",
 [L + "eas_public.c", L + "eas_smf.c", L + "eas_mdls.c", L + "eas_voicemgt.c", L + "eas_reverb.c", L + "eas_chorus.c", L + "eas_mixer.c", L + "eas_pcm.c", H + "eas_hostmm.c"],
 [("error exits of EAS_Init", L + "eas_public.c EAS_Init"), ("open and prepare error exits", L + "eas_public.c EAS_OpenFile, EAS_Prepare; eas_smf.c SMF_CheckFileType, SMF_Prepare"), ("collection clean-up", L + "eas_mdls.c DLSParser, DLSCleanup"), ("voice manager set-up", L + "eas_voicemgt.c VMInitialize, VMInitMIDI")],
 observe=["allocation seam: live blocks", "twin run without the fault"])

prop("M03", "Closing streams and shutting down releases everything, in every history",
 "After shutdown no memory obtained by the instance remains allocated, nothing is freed twice, and the host's file device is never called again for a closed stream. Opening, preparing, failing, closing and reloading files, streams and sound collections any number of times never consumes stream, synthesizer or file-handle slots permanently.",
 ["histories", "inputs"], "every history of open, prepare, load, play, fail, close and shutdown calls",
 T + "each opens one stream once, so slow leaks and slot exhaustion never show.",
 [L + "eas_public.c", L + "eas_smf.c", L + "eas_mdls.c", L + "eas_voicemgt.c", H + "eas_hostmm.c"],
 [("stream slots", L + "eas_public.c EAS_AllocateStream, EAS_CloseFile, EAS_Shutdown"), ("synthesizer reference counts", L + "eas_voicemgt.c VMInitMIDI, VMIncRefCount, VMMIDIShutdown"), ("collection reference counts", L + "eas_mdls.c DLSCleanup, DLSAddRef"), ("file handle table", H + "eas_hostmm.c EAS_HWOpenFile, EAS_HWDupHandle, EAS_HWCloseFile")],
 [("refCount", "owners of a synthesizer or of a sound collection", L + "eas_synth.h, " + L + "eas_sndlib.h")], ["live blocks of the allocation seam", "results of repeated opens", "reads on a revoked device"])

prop("M04", "Read faults are contained in the stream that suffers them",
 "When the file device returns errors or short data, the call or render step that met it reports an error or ends that stream early; no fabricated event is played from data that was never delivered, other streams keep playing exactly as they would have, and after closing the faulty stream the same file, healed, plays as if nothing had happened. A song file that ends inside its last track (other tracks intact) plays like one whose last track properly ends at that place.",
 ["fault_sequences", "schedules"], "every read of every file, failing by error, short or empty read or truncation, at every moment of playback",
 "The tests read from a healthy file.",
 [H + "eas_hostmm.c", L + "eas_smf.c", L + "eas_mdls.c", L + "eas_public.c"],
 [("read wrapper and file position", H + "eas_hostmm.c EAS_HWReadFile, EAS_HWGetByte, EAS_HWFileSeek"), ("parser error state", L + "eas_smf.c SMF_Event, SMF_State"), ("per-stream parse flags", L + "eas_public.c EAS_Render")],
 [("filePos", "position of the next read in a handle", H + "eas_hostmm.c")], ["EAS_Render results", "EAS_State", "rendered audio of the other streams"])

prop("D01", "Same inputs, same samples; instances never influence each other",
 "The same sequence of calls and file contents always produces the same results and bit-identical audio, whatever happened to be in freshly allocated memory, whatever the wall clock says and however often it was run before in the process. Instances used side by side, in any interleaving of their calls, each produce exactly what they produce alone.",
 ["schedules", "configurations", "histories"], "every interleaving of calls on several instances; every content of fresh memory; every clock",
 T + "with one instance on zeroed memory.",
 [L + "eas_public.c", L + "eas_voicemgt.c", L + "eas_wtsynth.c", L + "eas_dlssynth.c", L + "eas_reverb.c", L + "eas_chorus.c", L + "eas_mixer.c", H + "eas_hostmm.c"],
 [("all state hangs off the instance handle", L + "eas_data.h S_EAS_DATA"), ("explicit clearing of fresh objects", L + "eas_voicemgt.c VMInitialize, eas_public.c EAS_InitStream, eas_reverb.c ReverbInit, eas_chorus.c ChorusInit")],
 observe=["results of every call", "rendered audio"])

prop("D02", "How MIDI bytes are grouped into writes never changes the music",
 "Splitting an interactive MIDI byte stream into writes at any places, using or not using running status, and inserting real-time status bytes anywhere, sounds bit-identical to sending each message whole. Malformed or interrupted messages never affect the interpretation of the complete messages that follow.",
 ["inputs", "schedules"], "every MIDI byte stream, every way of cutting it, every position of real-time bytes",
 "No test uses the interactive interface.",
 [L + "eas_midi.c", L + "eas_public.c"],
 [("byte-wise message assembly", L + "eas_midi.c EAS_ParseMIDIStream"), ("system exclusive state machine", L + "eas_midi.c ProcessSysExMessage")],
 [("runningStatus, pending, byte3", "message under assembly", L + "eas_miditypes.h S_MIDI_STREAM")], ["rendered audio"])

prop("D03", "Streams mix by addition and clip instead of wrapping",
 "While voices are not exhausted, the audio of several streams playing in one instance is the sample-wise sum of what each plays alone, so opening, controlling or closing one stream never alters another. When the sum leaves the 16-bit range the output sits at the limit and never wraps around.",
 ["histories", "inputs", "schedules"], "every set of streams and every interleaving of their operations within the voice limit; every loudness",
 T + "one stream at a time.",
 [L + "eas_mixer.c", L + "eas_mixbuf.c", L + "eas_voicemgt.c", L + "eas_public.c", L + "eas_wtengine.c"],
 [("32-bit mix buffer and saturating output stage", L + "eas_mixer.c EAS_MixEnginePost"), ("per-synthesizer channel state", L + "eas_voicemgt.c"), ("voices tagged with their synthesizer", L + "eas_synth.h")],
 observe=["rendered audio"])

prop("D04", "An instance remembers nothing of the streams it has closed",
 "Once all its streams are closed, an instance is as good as new: whatever was opened, played, set on streams, loaded into streams, refused or broken off in it before, a file or live stream opened now gets the same results, settings, states and positions, and sounds bit-identical to the same stream in a fresh instance with the same instance-wide settings and global collection — at once, or after idle render steps.",
 ["histories", "fault_sequences"], "every history of files, live streams, collections, stream settings, transports, refused calls and faults, ended by closing everything; every stream opened afterwards",
 "Every test starts from a fresh instance.",
 [L + "eas_public.c", L + "eas_voicemgt.c", L + "eas_smf.c", L + "eas_mdls.c", L + "eas_wtsynth.c"],
 [("fresh state of a stream", L + "eas_public.c EAS_InitStream, EAS_OpenFile, EAS_OpenMIDIStream"), ("fresh state of a synthesizer", L + "eas_voicemgt.c VMInitMIDI, VMReset"), ("voices and channel assignments given back", L + "eas_voicemgt.c VMMIDIShutdown, VMMuteAllVoices"), ("fresh parser state", L + "eas_smf.c SMF_CheckFileType, SMF_Prepare")],
 observe=["results of every call", "positions, states and settings read back", "rendered audio"])

prop("V07", "Melodic channels are interchangeable",
 "A song or live performance whose melodic channels (all but channel 10) are exchanged among each other sounds bit-identical, as long as no voice limit is met and no scalable-polyphony message ranks the channels: every channel message means the same, and no more, on every melodic channel.",
 ["inputs", "configurations"], "every song with every kind of channel message, every permutation of its melodic channels, from a file or live, with built-in or loaded instruments, transposed or not",
 "No test compares channels.",
 [L + "eas_voicemgt.c", L + "eas_midi.c", L + "eas_wtsynth.c", L + "eas_dlssynth.c"],
 [("loops over the channels", L + "eas_voicemgt.c VMUpdateSynth, VMResetControllers, VMInitializeAllChannels, VMCheckKeyGroup"), ("channel tag of a voice", L + "eas_synth.h voice channel"), ("status byte to channel", L + "eas_midi.c ProcessMIDIMessage")],
 observe=["rendered audio"])

prop("T01", "Every event of a MIDI file plays once, in order, at its musical time",
 "Each event of a format 0 or 1 Standard MIDI File takes effect exactly once, in file order within its track and in tick order across tracks, in the render step that covers its time under the file's tempo map. (A set-up bar is skipped, on every pass and in the metadata scan alike: when GM System On, a tempo and a time signature all stand at time zero before the first note, time stands still until that note.) What is heard is exactly what those messages, sent one by one to an interactive stream at those times, would sound like, however the file encodes them (running status, padded lengths, extra chunks, meta events, system-exclusive messages split into packets), and, with the header search switched on, whatever other data precedes its header. The note count the stream reports is the number of notes it was told to start.",
 ["inputs", "schedules"], "every well-formed file: any division, tempo map, track count, encoding and event density",
 T + "only durations are checked, never which event happened when.",
 [L + "eas_smf.c", L + "eas_midi.c", L + "eas_public.c", H + "eas_hostmm.c"],
 [("merge of the tracks by ticks", L + "eas_smf.c SMF_Event"), ("tick to time conversion", L + "eas_smf.c SMF_UpdateTime, SMF_ParseMetaEvent"), ("per-slice parsing", L + "eas_public.c EAS_ParseEvents")],
 [("time, tickConv, ticks", "time of the next event, length of a tick, position of each track", L + "eas_smf.h")], ["metadata callbacks placed next to every event", "rendered audio", "EAS_State"])

prop("T02", "Playback ends: never before the last event, always soon after it",
 "A file keeps playing until its last event is due, then lets the sounding notes die away and reaches the stopped state within bounded time; afterwards rendering stays silent and successful. The reported position advances exactly with the rendered time while playing, and the length obtained from a metadata scan equals the time of the last event; the scan leaves the stream at its beginning and otherwise changes nothing about the playback that follows.",
 ["inputs", "histories"], "every well-formed file, with or without hanging notes, held pedals or long releases; scans before and during playback",
 "The tests check five files whose notes all end.",
 [L + "eas_smf.c", L + "eas_public.c", L + "eas_voicemgt.c"],
 [("end of all tracks releases every voice", L + "eas_smf.c SMF_Event"), ("stopped when no voice is active", L + "eas_smf.c SMF_State"), ("metadata scan and rewind", L + "eas_public.c EAS_ParseMetaData, eas_smf.c SMF_Reset")],
 [("state", "ready, play, stopping, stopped", L + "eas_smf.c"), ("time", "position of the stream", L + "eas_public.c")], ["EAS_State", "EAS_GetLocation", "EAS_ParseMetaData", "rendered audio"])

prop("T03", "Pause silences and freezes a stream; resume continues without loss",
 "However often and whenever a stream is paused and resumed, it is silent and its position frozen while paused, other streams are unaffected, and after resuming every remaining event plays exactly once, later by exactly the time spent paused. Pausing before the first render, during the final release or twice in a row never leaves the stream stuck or broken.",
 ["schedules", "histories"], "every schedule of pause and resume calls at every render step",
 T + "one pause at one point.",
 [L + "eas_public.c", L + "eas_smf.c", L + "eas_voicemgt.c"],
 [("pause and resume flags", L + "eas_public.c EAS_Pause, EAS_Resume"), ("parser states paused and play", L + "eas_smf.c SMF_Pause, SMF_Resume"), ("muting of the voices", L + "eas_voicemgt.c VMMuteAllVoices")],
 [("streamFlags", "pending pause and resume requests", L + "eas_data.h")], ["EAS_State", "EAS_GetLocation", "callbacks", "rendered audio"])

prop("T04", "Seeking lands where asked and plays on as if it had got there by playing",
 "After a seek, absolute or relative, forward or backward, at any time and while paused too, the reported position is the target, the end of the file at most, and exactly the events due from there on play, at their distance from the target. Programs, controllers and tempo in force are those the skipped part of the file would have set, no skipped note sounds, and the paused state is kept.",
 ["schedules", "histories", "inputs"], "every file, every moment of seeking, every target inside or outside the file, every sequence of seeks",
 T + "one forward seek checked for its return code only.",
 [L + "eas_public.c", L + "eas_smf.c", L + "eas_midi.c", L + "eas_voicemgt.c"],
 [("fast-forward parse without notes", L + "eas_public.c EAS_Locate, EAS_ParseEvents; eas_midi.c eParserModeLocate"), ("rewind", L + "eas_smf.c SMF_Reset"), ("channel reset", L + "eas_voicemgt.c VMReset")],
 [("time", "stream position", L + "eas_public.c")], ["EAS_GetLocation", "callbacks", "rendered audio", "EAS_State"])

prop("T05", "Repeat plays the file the requested number of times, identically",
 "With a repeat count of n the file plays n+1 times, or for ever when the count is negative; every pass plays every event once, at the same distances and with the same programs and tempi as the first, and only then does the stream stop. The remaining count can be read back at any time.",
 ["inputs", "histories"], "every file, every repeat count, set before or during playback, with or without pauses",
 "No test uses repeat.",
 [L + "eas_public.c", L + "eas_smf.c", L + "eas_voicemgt.c"],
 [("repeat check after each slice", L + "eas_public.c EAS_Render"), ("parser and synthesizer reset", L + "eas_smf.c SMF_Reset, eas_voicemgt.c VMReset")],
 [("repeatCount", "passes left", L + "eas_data.h")], ["callbacks", "EAS_GetRepeat", "EAS_State", "rendered audio"])

prop("T06", "Playback rate scales musical time only, at any moment",
 "With playback rate r, song time advances r times as fast as rendered time from the next render step on, however often the rate is changed and in combination with pauses and seeks: no event is lost, repeated or reordered. Pitch and loudness of the notes do not change, and rates outside the documented range are refused without effect.",
 ["schedules", "inputs"], "every schedule of rate changes over every file",
 "No test changes the rate.",
 [L + "eas_public.c", L + "eas_smf.c"],
 [("slice length scaled by the rate", L + "eas_public.c EAS_SetPlaybackRate")],
 [("frameLength", "song time per rendered slice", L + "eas_data.h")], ["callbacks", "EAS_GetLocation", "rendered audio"])

prop("S01", "Text events reach the registered callback, whole or cut to its buffer",
 "Every text, copyright, track-name and lyric event is delivered once, in order and in its render step to the callback registered for the stream, with its type and its text, truncated to fit the registered buffer and always terminated; nothing is written beyond that buffer. No callback arrives for other streams, for other event kinds or after the stream is closed.",
 ["inputs", "schedules"], "every text length, buffer size and position; any number of streams; scans and seeks in between",
 "No test registers a callback.",
 [L + "eas_smf.c", L + "eas_public.c"], [("truncating read into the host buffer", L + "eas_smf.c SMF_ParseMetaEvent"), ("registration", L + "eas_public.c EAS_RegisterMetaDataCallback")],
 observe=["callback arguments", "guard bytes around the buffer"])

prop("S02", "Calls follow the documented life cycle; a refused call changes nothing",
 "Every call succeeds exactly in the stream states and argument ranges the header documents, and a call that returns an error leaves audio, positions, states and settings exactly as if it had not been made. Queries never change anything.",
 ["histories", "programs"], "every sequence of public calls with every argument on every kind and state of stream",
 T + "no call is made in a wrong state or with a wrong argument.",
 [L + "eas_public.c", L + "eas_smf.c", L + "eas_voicemgt.c"], [("state checks", L + "eas_public.c EAS_StreamReady"), ("range checks", L + "eas_public.c, " + L + "eas_voicemgt.c")],
 [("state", "life cycle state", L + "eas_smf.c")], ["results of every call", "twin run without the refused calls and queries"])

prop("S03", "Settings read back as set and survive everything but their own setter",
 "Volume, polyphony, priority, repeat count and effect parameters read back the value last accepted for that stream or instance, with the documented defaults before, and no playback, seek, pause, repeat or operation on another stream changes them.",
 ["histories"], "every history of setters, getters, playback and life-cycle calls over several streams",
 "No test sets and reads back a setting.",
 [L + "eas_public.c", L + "eas_voicemgt.c", L + "eas_reverb.c", L + "eas_chorus.c", L + "eas_smf.c"], [("stored settings", L + "eas_public.c"), ("effect parameter stores", L + "eas_reverb.c ReverbSetParam, eas_chorus.c ChorusSetParam")],
 observe=["getter results against a reference model"])

prop("V01", "Volume settings scale the sound by the documented law, without memory",
 "The level of every stream is the product of its own and the master volume, each following the documented decibel scale with 0 silencing completely; only the last value set matters, not the history, and a change reaches sounding and future notes within a render step or two without touching other streams.",
 ["histories", "inputs"], "every history of volume settings on every stream and the master, at every moment",
 "No test measures loudness.",
 [L + "eas_public.c", L + "eas_voicemgt.c", L + "eas_math.c", L + "eas_mixer.c"], [("volume to gain conversion", L + "eas_public.c EAS_VolumeToGain"), ("per-synthesizer volume", L + "eas_voicemgt.c VMSetVolume"), ("master gain", L + "eas_mixer.c")],
 observe=["amplitude of probe notes"])

prop("V02", "Transposition shifts melodic pitch only and never strands a note",
 "A transposition of n semitones moves every melodic note by exactly n semitones and no drum, from the moment it is set, and is undone completely by setting it back. Whatever the transposition was when a note began, its own note-off ends it.",
 ["histories", "inputs"], "every history of transposition changes around sounding notes",
 "No test transposes.",
 [L + "eas_voicemgt.c", L + "eas_wtsynth.c", L + "eas_dlssynth.c", L + "eas_public.c"], [("global transpose in the pitch calculation", L + "eas_wtsynth.c, " + L + "eas_dlssynth.c"), ("setting", L + "eas_voicemgt.c VMSetTranposition")],
 observe=["frequency and presence of probe notes"])

prop("V03", "Polyphony limits hold, newest notes sound, and freed voices come back",
 "The number of notes sounding at once never exceeds the stream's or the synthesizer's polyphony limit, changed at any time; within the limit every note sounds, beyond it the newest note still starts, but never at the expense of a stream of higher priority; a note of an exclusive key group silences its predecessors there too. Whatever was stolen, muted, reset, paused or closed before, once the notes end the full number of voices is available again.",
 ["histories", "schedules"], "every history of notes, limit and priority changes, resets and stream closings over several streams",
 "No test sounds more notes than voices.",
 [L + "eas_voicemgt.c"], [("voice allocation and stealing", L + "eas_voicemgt.c VMStartVoice, VMFindAvailableVoice, VMStealVoice"), ("voice accounting", L + "eas_voicemgt.c IncVoicePoolCount, DecVoicePoolCount, VMSetPolyphony")],
 [("numActiveVoices, poolCount", "voices in use, per synthesizer and pool", L + "eas_synth.h")], ["probe notes heard"])

prop("V04", "Notes sound exactly while MIDI says so: none stuck, none lost",
 "At every moment exactly those notes sound that were started and not yet ended by their note-off, a lifted sustain pedal, all-notes-off, all-sound-off, a mode message or a reset, on their own channel only. Channels are independent, and every voice ends within bounded time after its last reason to sound is gone.",
 ["inputs", "histories"], "every sequence of note, pedal, mode and reset messages over all 16 channels",
 "The tests never look at which notes sound.",
 [L + "eas_midi.c", L + "eas_voicemgt.c", L + "eas_dlssynth.c", L + "eas_wtsynth.c"], [("note on and off", L + "eas_voicemgt.c VMStartNote, VMStopNote"), ("pedal and mode messages", L + "eas_voicemgt.c VMControlChange, VMReleaseAllDeferredNotes, VMAllNotesOff"), ("deferred note-off", L + "eas_voicemgt.c VMDeferredStopNote")],
 [("voiceFlags, voiceState", "why a voice still sounds", L + "eas_synth.h")], ["probe notes heard"])

prop("V05", "Channel controllers shape their own channel by their MIDI meaning",
 "Channel volume, expression, pan, pitch bend and its range, tuning, modulation, program and bank selection act on their channel only, by their MIDI meaning and independent of the order in which they were set, program, bank and pan on the notes that follow, the others on sounding notes too; a controller reset returns to the defaults. Velocity scales loudness by the documented square law.",
 ["inputs", "histories"], "every history of controller, program, bend and registered-parameter messages over all channels",
 "The tests never look at the sound.",
 [L + "eas_midi.c", L + "eas_voicemgt.c", L + "eas_dlssynth.c", L + "eas_wtsynth.c", L + "eas_pan.c", L + "eas_math.c"], [("controller state", L + "eas_voicemgt.c VMControlChange, VMRPNStateMachine, VMPitchBend, VMProgramChange"), ("channel update", L + "eas_dlssynth.c DLS_UpdateChannel, eas_wtsynth.c WT_UpdateChannel")],
 [("channels[]", "controllers, bend, tuning, program of each channel", L + "eas_synth.h")], ["amplitude, balance and frequency of probe notes"])

prop("V06", "System-exclusive messages to all devices act at once, on their own player only",
 "Master volume scales sounding and later notes of its player by the square of the 14-bit value. GM System On silences the player, restores its defaults and ends channel masking. A scalable-polyphony message masks exactly the channels it does not list, lists with zero, or lists beyond the voices available to the player: their notes stop and later ones stay silent while all others play on; the masks follow every later change of the limits and end with a malformed message, a reset or a seek. Messages for other devices, unknown and non-universal ones change nothing, and no message affects another player.",
 ["inputs", "histories"], "every history of universal system-exclusive messages, notes, voice-limit changes and seeks over one or two players",
 "The tests never look at the sound.",
 [L + "eas_midi.c", L + "eas_voicemgt.c"], [("system-exclusive parser", L + "eas_midi.c ProcessSysExMessage"), ("scalable polyphony", L + "eas_voicemgt.c VMInitMIPTable, VMSetMIPEntry, VMUpdateMIPTable, VMMIPUpdateChannelMuting"), ("limits", L + "eas_voicemgt.c VMSetPolyphony, VMSetSynthPolyphony")],
 [("mip, pool, CHANNEL_FLAG_MUTE, SYNTH_FLAG_SP_MIDI_ON", "channel masking", L + "eas_synth.h")], ["probe notes heard and their level"])

prop("L01", "A sound collection plays the regions, tuning, levels and envelopes it says",
 "A note on an instrument of a loaded collection sounds the region whose key and velocity ranges contain it, with that region's wave, tuning, attenuation, pan, loop and volume envelope; several matching regions sound together and where no region contains the note it is silent. On programs the collection does not define, the built-in sounds play. Equivalent encodings of one collection (chunk order, padding, unknown and conditional chunks, level 1 or 2 lists, 8 or 16 bit) load and sound alike.",
 ["inputs"], "every well-formed collection: any number and order of instruments, regions, waves, articulations and chunks",
 "No test loads a collection.",
 [L + "eas_mdls.c", L + "eas_dlssynth.c", L + "eas_wtsynth.c", L + "eas_wtengine.c", L + "eas_voicemgt.c"], [("chunk parser and conversion", L + "eas_mdls.c"), ("region search", L + "eas_voicemgt.c VMFindDLSProgram, VMStartNote"), ("envelopes and gain", L + "eas_dlssynth.c")],
 observe=["presence, amplitude, frequency and envelope of notes"])

prop("L02", "Loading and replacing collections is safe and scoped at any moment",
 "A collection loaded for one stream affects that stream only, one loaded globally affects the streams opened afterwards, and a stream's own collection wins over the global one. Loading, replacing or failing to load a collection and closing its streams, while notes of it sound, never disturbs other streams and never plays foreign or freed sample data.",
 ["histories", "schedules", "fault_sequences"], "every history of collection loads, replacements, failures and closings around sounding notes",
 "No test loads a collection.",
 [L + "eas_public.c", L + "eas_voicemgt.c", L + "eas_mdls.c", L + "eas_dlssynth.c"], [("per-stream and global collections", L + "eas_public.c EAS_LoadDLSCollection, eas_voicemgt.c VMSetDLSLib, VMSetGlobalDLSLib"), ("reference counts", L + "eas_mdls.c DLSCleanup, DLSAddRef")],
 [("refCount", "owners of a collection", L + "eas_sndlib.h")], ["probe notes heard", "live blocks"])

prop("L03", "Built-in instruments play in tune, at their level and independently of others",
 "On the built-in sounds a note of every pitched program sounds at the equal-tempered pitch of its key, moved exactly by bend, tuning and transposition and swung by modulation and pressure; for every program and drum, velocity, volume and expression scale the level by their square laws and pan its balance; sustained programs hold level and pitch while held or pedalled, and every note falls silent in bounded time after its end. Drums sound on channel 10 unmoved by transposition, exclusive drums silence each other and no others, unknown banks fall back to the default sounds, and a note sounds the same on any melodic channel, at any time and beside any other notes.",
 ["inputs", "histories"], "every program, key, controller setting and history of notes on the built-in sounds",
 "The tests never look at the sound.",
 [L + "eas_wtsynth.c", L + "eas_wtengine.c", L + "eas_voicemgt.c", L + "eas_math.c", L + "eas_pan.c"], [("built-in synthesizer", L + "eas_wtsynth.c WT_StartVoice, WT_UpdateVoice, WT_UpdatePhaseInc, WT_UpdateGain, WT_UpdateEG1"), ("program and region choice", L + "eas_voicemgt.c VMProgramChange, VMFindProgram, VMStartNote"), ("exclusive groups", L + "eas_voicemgt.c VMCheckKeyGroup"), ("sample engine", L + "eas_wtengine.c WT_Interpolate, WT_VoiceGain")],
 [("wtVoices[]", "envelope, oscillator and sample position of each voice", L + "eas_wtengine.h")], ["pitch, level, balance and waveform of notes"])

prop("L04", "The modulators of a loaded collection move pitch, level and filter as written",
 "A note of a loaded collection is moved by that collection's own modulators: both low-frequency oscillators with their rates, delays and depths (alone, scaled by the modulation wheel and by channel pressure), the modulation envelope with its delay, attack, hold, decay, sustain and release scaled by velocity and key, the static tuning, and the low-pass filter with its cutoff, resonance, velocity and key tracking. At every moment of the note its pitch and level are what the collection, the controllers received so far and the time since the note's start and end say, and nothing else is moved.",
 ["inputs", "histories"], "every well-formed set of modulators and every history of wheel and pressure messages during the note",
 "No test loads a collection.",
 [L + "eas_mdls.c", L + "eas_dlssynth.c", L + "eas_wtsynth.c", L + "eas_wtengine.c", L + "eas_math.c"], [("oscillators and modulation envelope", L + "eas_dlssynth.c DLS_UpdateVoice, DLS_UpdateEnvelope, WT_UpdateLFO"), ("pitch, gain and filter modulation", L + "eas_dlssynth.c DLS_UpdatePhaseInc, DLS_UpdateGain, DLS_UpdateFilter"), ("unit conversion", L + "eas_mdls.c Convert_art, ConvertDelay, ConvertRate, ConvertQ")],
 [("wtVoices[]", "oscillators, envelopes and filter of each voice", L + "eas_wtengine.h")], ["pitch and level of the note, slice by slice"])

prop("L05", "A note of a sound library follows that library's data",
 "A note played by the wavetable synthesizer (with the built-in sound library, or with one installed by EAS_SetSoundLibrary for all streams or for one) sounds as the library in force says: the program the bank and program tables name (or its documented fallback), the first region whose key range holds the key, that region's wave (looped, one-shot or noise) up to its end, its tuning, gain and pan, its two envelopes, its oscillator with delay, rate and depth, its filter, and the modulation wheel and channel pressure received so far. Notes played earlier, libraries installed and replaced earlier and libraries that were refused (wrong version, sample rate or sample size) leave no trace, and without any library a note is silent.",
 ["inputs", "histories"], "every well-formed sound library, every history of library changes and every history of controllers during the note",
 "No test installs a sound library or listens to a note.",
 [L + "eas_wtsynth.c", L + "eas_wtengine.c", L + "eas_voicemgt.c", L + "eas_public.c", L + "eas_math.c"], [("program and region choice", L + "eas_voicemgt.c VMFindProgram, VMStartNote"), ("envelopes, oscillator and end of the wave", L + "eas_wtsynth.c WT_UpdateVoice, WT_UpdateEG1, WT_UpdateEG2, WT_CheckSampleEnd; eas_wtengine.c WT_UpdateLFO"), ("library change", L + "eas_public.c EAS_SetSoundLibrary; eas_voicemgt.c VMSetEASLib, VMValidateEASLib")],
 [("pEAS, wtVoices[]", "library in force, envelopes and oscillator of each voice", L + "eas_synth.h, " + L + "eas_wtengine.h")], ["pitch, level, balance and waveform of the note, slice by slice", "result of EAS_SetSoundLibrary"])

prop("E01", "Effects alter only what they should and die out",
 "A bypassed effect is exactly transparent; switching reverb or chorus on, off or to another preset at any moment gives bounded output; after the music ends an effect dies out to its own rounding noise (a few hundred of 32767 at most), and once bypassed the dry sound is bit-exact again. The level of an effect scales what it adds in proportion, the order of setting it up and switching it on does not matter, what an effect does depends only on the settings last chosen and not on those before, different presets differ, settings act on their own instance only and invalid ones are refused without effect.",
 ["histories", "schedules"], "every history of effect parameter changes during playback",
 "No test sets an effect parameter.",
 [L + "eas_reverb.c", L + "eas_chorus.c", L + "eas_mixer.c", L + "eas_public.c"], [("bypass", L + "eas_reverb.c ReverbProcess, eas_chorus.c ChorusProcess"), ("presets", L + "eas_reverb.c ReverbUpdateRoom, eas_chorus.c ChorusUpdate")],
 [("m_bypass, delay lines", "effect state", L + "eas_reverbdata.h, " + L + "eas_chorusdata.h")], ["rendered audio", "EAS_GetParameter"])

prop("W01", "Host yields and load limits delay events but never lose them",
 "When the host cuts a render step short or a processing-load limit is in force, unfinished events carry over to the following steps: every event still plays exactly once and in order, the song position never runs ahead of the events played, and once the pressure stops playback catches up and ends normally.",
 ["schedules", "fault_sequences"], "every pattern of host yields and load limits over every file and set of streams",
 "The test host never yields and sets no limit.",
 [L + "eas_public.c", L + "eas_voicemgt.c", L + "eas_smf.c"], [("yield and workload checks", L + "eas_public.c EAS_ParseEvents, EAS_Render"), ("workload estimate", L + "eas_voicemgt.c VMCheckWorkload")],
 [("STREAM_FLAGS_PARSED", "stream finished parsing its slice", L + "eas_data.h"), ("workload", "estimated cost of the slice", L + "eas_synth.h")], ["callbacks", "EAS_Render results", "EAS_GetLocation"])

prop("N01", "Command-line options of the example renderer are parsed as documented",
 "The sonivoxrender program accepts exactly the options its manual page documents, with their argument ranges, and refuses anything else with a usage message.",
 ["inputs"], "every argument vector", "No test runs the program.", ["example/sonivoxrender.c"], [("getopt loop", "example/sonivoxrender.c main")])
prop("N02", "The reported library configuration describes the build",
 "The configuration record reports the version, sample rate, channels, voices and buffer size the library was built with.",
 ["configurations"], "every build configuration", "The tests read it but compare it with nothing.", [L + "eas_public.c", "CMakeLists.txt"], [("constant record", L + "eas_public.c easLibConfig")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as h:
    for p in P: h.write(json.dumps(p, ensure_ascii=False) + "\n")
