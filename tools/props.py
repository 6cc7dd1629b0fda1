#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl. Run: python3 tools/props.py > properties.jsonl"""
import json
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    print(json.dumps(d,ensure_ascii=False))

LIB=["src/lib.rs"]
KEY=["src/features/key/detector.rs","src/features/key/key_changes.rs"]
ALLSRC=["src/lib.rs","src/preprocessing/","src/features/","src/analysis/"]
API=["return value of analyze_audio","return values of the public functions of preprocessing, features and analysis"]

P("C01","Same audio and settings always give the same analysis",
  "Analysing the same samples at the same sample rate with the same configuration gives bit-identical results every time - BPM, key, beat grid, every confidence, warning and candidate; only the reported processing time may differ. The same holds for every public stage function (onset detection, tempo estimation, chroma, key detection, beat tracking, preprocessing). Nothing ambient may leak in: not the process's hash seed, entropy, memory addresses or old heap contents, environment variables, number of CPUs, thread identity or process identity.",
  ["schedules","inputs","configurations"],"every input and configuration, and every value the process environment can take (hash seed, entropy, addresses, heap contents, environment, CPU count, thread)",
  "Tests run each input once per process and compare loose ranges; a result that flips with the process's hash seed passes them on almost every run.",
  ALLSRC,[("pure pipeline: every stage takes its inputs as arguments and returns new values","src/lib.rs analyze_audio"),("vote tallies over hash maps must be reduced in an order-independent way","src/features/key/detector.rs, src/features/key/key_changes.rs")],
  observe=API)
P("C02","Concurrent analyses do not influence each other",
  "When any number of threads analyse audio at the same time - different tracks, different configurations, or calls on one shared tracker or template set - each call returns exactly what it would have returned running alone, whatever the interleaving. No interleaving deadlocks or panics a call.",
  ["schedules","inputs","histories"],"every interleaving of concurrent calls of the public API, for every mix of operations, inputs and configurations",
  "The test suite runs with one thread; the batch example relies on parallel calls but no test exercises one, and none controls an interleaving.",
  ALLSRC+["examples/analyze_batch.rs"],[("no shared mutable state: every call owns its buffers and FFT plans","src/lib.rs, src/features/"),("read-only handles","src/features/key/templates.rs, src/features/beat_tracking/hmm.rs")],
  observe=API)
P("C03","A call's result does not depend on earlier calls",
  "Any call returns the same result whatever was called before it in the same thread or process: other tracks, sample rates, lengths or configurations, calls that failed, or the same call many times over. A call leaves the caller's thread as it found it, including its floating-point mode.",
  ["histories","inputs","configurations"],"every history of calls preceding a call, of any length, on the same thread and on other threads of the process",
  "Tests call each function once or twice in a fresh situation and never compare a result with the same call made after a long, mixed or failing history.",
  ALLSRC,[("no state survives a call","src/lib.rs, src/features/, src/preprocessing/")],observe=API)
P("C04","An aborted call harms nobody else",
  "If a call is cut short at any point by unwinding (an allocation that fails, a logger that panics), every other call - already running on another thread, queued, or made later, including a retry of the same call - completes and returns what it would have returned without that failure. The aborted call leaves no lock held or poisoned, leaks no memory and does not take the process down.",
  ["crash_points","schedules","histories"],"every point at which a call can be cut short (each allocation, each log record), every peer call in flight and every later call",
  "Tests never abort a call part-way, so nothing is known about what a half-finished call leaves behind.",
  ALLSRC,[("no global or thread-local state; owned buffers are released by unwinding","src/lib.rs, src/features/")],observe=API)
P("C05","Wall-clock behaviour never changes an analysis",
  "Clock steps, stalls, freezes, leaps and slow hosts during a call change nothing in the result except the reported processing time. The reported processing time is finite, never negative, and is the time that elapsed on the monotonic clock during that call: a stall in the middle of the call is included in it and time before or after the call is not.",
  ["fault_sequences","schedules","inputs"],"every behaviour of the monotonic and real-time clocks during a call, for every input",
  "Tests run on the real clock, which never jumps or stalls under them, and do not compare the reported time with anything.",
  ["src/lib.rs","src/analysis/result.rs"],[("one Instant taken at entry and read once at the end","src/lib.rs analyze_audio start_time / processing_time_ms")],
  observe=["AnalysisResult.metadata.processing_time_ms","all other fields of the result"])
P("C06","Logging and diagnostics never change an analysis",
  "The log level and its changes during a call, the logging sink (slow, failing, calling back into the library), the debug options, whether tempo candidates are requested, and whether standard error can be written change no field of the result other than the requested candidates list, and make no call fail.",
  ["configurations","fault_sequences","inputs"],"every log level, sink behaviour, debug setting and standard-error fault, at any moment of a call, for every input",
  "Tests run with logging off, a healthy standard error and no debug options, and never compare results across diagnostic settings.",
  ["src/lib.rs","src/features/period/multi_resolution.rs","src/config.rs"],[("diagnostics only read state","src/lib.rs debug_track_id / emit_tempogram_candidates blocks, src/features/period/multi_resolution.rs debug printing")],
  observe=["AnalysisResult fields","whether the call panics"])
P("C07","Damaged audio streams never crash an analysis",
  "Whatever a faulty source delivers - lost, duplicated, reordered or truncated packets, flipped bits, stuck or saturated samples, NaN and infinite samples, byte-shifted or mislabelled PCM, a wrong sample rate - preprocessing and analysis return a result or an error. They never panic, abort, overflow or loop forever.",
  ["fault_sequences","inputs","configurations"],"every fault sequence applied to every audio stream before it reaches the library, at any sample rate, under any documented configuration",
  "Tests feed clean synthetic signals; none contains a NaN, a flipped bit or a damaged packet sequence.",
  ALLSRC,[("input validation and numeric guards","src/lib.rs entry checks; epsilon guards throughout src/features")],observe=["Ok or Err from analyze_audio, normalize, detect_and_trim, stereo_to_mono, onset and tempo stages; no unwinding"])
P("C08","Every result is well formed, whatever the stream went through",
  "Every result that is returned is usable without further checks: all numbers are finite, BPM is zero or inside the configured range, every confidence lies in 0 to 1, beats are strictly increasing times from 0 to the end of the analysed audio (give or take the beat tracker's 50 ms onset tolerance), every downbeat is one of the beats, bars agree with downbeats, the reported duration is that of the analysed audio (what silence trimming leaves of the input), the reported sample rate is the one passed in, and the confidence report derived from it is finite and within 0 to 1.",
  ["fault_sequences","inputs","configurations"],"every returned result, for every clean or damaged stream, sample rate and documented configuration",
  "Tests check ranges on a handful of clean signals with the default configuration.",
  ["src/lib.rs","src/analysis/result.rs","src/analysis/confidence.rs","src/features/beat_tracking/mod.rs","src/features/period/mod.rs"],[("clamping and validation of estimates","src/lib.rs, src/features/period/, src/features/beat_tracking/, src/analysis/confidence.rs")],
  observe=["AnalysisResult","AnalysisConfidence"])
P("C09","Work and memory per call stay bounded",
  "Every analysis or preprocessing call on a track of up to several minutes finishes within a number of steps, and within a peak of memory, that are a fixed allowance plus a fixed multiple (set by the configured frame sizes and filter margins) of the amount of audio, however damaged the audio; doubling the audio does not repeatedly triple the work or memory of an analysis or of one of its frame- and sample-wise stages. Every call gives all its memory back: any history of calls - successful, failing or aborted, with the same or always new inputs - never makes the process grow.",
  ["fault_sequences","inputs","histories"],"every stream, damaged or not, every history of calls and every abort point",
  "Tests time a few clean signals on the real clock; no test bounds work or memory on damaged input or over a long history.",
  ALLSRC,[("linear-time passes over frames; owned buffers","src/features/, src/preprocessing/")],observe=["steps executed and bytes allocated during a call","bytes still allocated after its result is dropped"])
P("C10","The incremental tempo tracker is a faithful state machine",
  "Started from a finite tempo, the incremental tempo tracker behaves as a pure state machine over its visible state: an accepted update appends exactly one entry to the history and sets the current BPM to it and to the value returned; earlier entries never change, the BPM moves by at most 5 BPM per update and confidence stays within 0 to 1. Stopping, cloning or checkpointing the tracker and resuming from its visible state, on any thread and at any point, continues exactly as if it had never stopped, and several trackers used in turn never affect one another.",
  ["histories","fault_sequences","schedules"],"every sequence of updates with good, damaged, duplicated, lost or delayed onset chunks, every checkpoint/restore point and every interleaving of several trackers",
  "Tests make one to three updates with regular onsets and never restore, interleave or damage anything.",
  ["src/features/beat_tracking/bayesian.rs"],[("update computes posterior over candidates around the current BPM, then assigns current_bpm, current_confidence and pushes to history","src/features/beat_tracking/bayesian.rs update_with_onsets")],
  state=[("current_bpm","tempo after the last accepted update","src/features/beat_tracking/bayesian.rs"),("current_confidence","confidence after the last accepted update","src/features/beat_tracking/bayesian.rs"),("history","initial BPM followed by one entry per accepted update","src/features/beat_tracking/bayesian.rs")],
  observe=["get_bpm, get_confidence, get_history and the public fields after every call"])
P("C11","A failed or aborted in-place operation is all-or-nothing",
  "An operation that updates something of the caller's in place is all-or-nothing: when a tracker update or a loudness normalisation is rejected with an error, the tracker's BPM, confidence and history, or the caller's sample buffer, are exactly as before; when it is cut short by an abort (a failing allocation or a panicking log sink) at any point, they are either exactly as before or exactly as after the complete operation, never a mixture. The same operations made afterwards give the same results as if the rejected ones had never been made.",
  ["crash_points","fault_sequences","histories"],"every rejected input and every abort point (each allocation, each log record) of every in-place operation, at any point of any history",
  "Tests check that bad input is rejected but not what the rejected or interrupted call left behind.",
  ["src/features/beat_tracking/bayesian.rs","src/preprocessing/normalization.rs"],[("validate first, mutate last","src/features/beat_tracking/bayesian.rs update_with_onsets; src/preprocessing/normalization.rs normalize")],
  observe=["tracker fields and sample buffer after an Err or an unwind"])
P("C12","A stored analysis reads back exactly or not at all",
  "An analysis or confidence report written out with the library's own serialisation and read back is the same, field for field and bit for bit. A stored record damaged by a torn, short or lost write is rejected on reading; it never comes back as a different analysis.",
  ["crash_points","inputs","fault_sequences"],"every result the library can return, every point at which writing it can be interrupted and every restart",
  "No test serialises a result.",
  ["src/analysis/result.rs","src/analysis/confidence.rs"],[("serde derives on the result types","src/analysis/result.rs, src/analysis/confidence.rs"),("every stored number is finite","src/lib.rs")],
  observe=["value deserialised after the fault"])
P("C13","Small stream damage does not derail a clear tempo or key",
  "For a track whose undamaged analysis is stable (trimming its ends, a small gain change or faint noise do not change it, and the reported key carries non-zero confidence), losing, duplicating or swapping a few isolated packets, short drop-outs, or brief corruption (stuck samples, flipped bits, faint noise, clicks of a few milliseconds within full scale) leaves the analysis usable: the tempo stays within a few percent of the undamaged tempo or a simple metrical multiple of it, and the key stays the same. The analysis does not turn into an error.",
  ["fault_sequences","inputs"],"every placement of a small number of isolated packet faults in a track whose undamaged analysis is stable",
  "No test damages a signal.",
  ["src/lib.rs","src/features/period/","src/features/key/"],[("medians, voting and multi-resolution fusion","src/features/period/multi_resolution.rs, src/features/key/detector.rs")],
  observe=["bpm and key of the damaged track against the undamaged one"])
P("C14","Batch analysis reports every file once, in order, whatever happens",
  "The batch analyser prints exactly one result per input file, in input order, equal to what analysing that file alone gives, for any number of workers and any scheduling of them. A file that cannot be opened, read or decoded is reported as an error for that file only, and interrupted or short reads change nothing.",
  ["schedules","fault_sequences","configurations"],"every worker count, worker schedule and sequence of disk faults on the input files",
  "Examples are only compiled by the tests.",
  ["examples/analyze_batch.rs","examples/analyze_file.rs"],[("rayon pool with an order-preserving collect","examples/analyze_batch.rs main"),("per-file Result","examples/analyze_batch.rs")],
  observe=["lines printed by the batch example"])
NA=[
("C20","Tempo of clean music is detected accurately","For a clean track with a steady tempo within the configured range, the reported BPM is the true tempo, or a documented metrical multiple of it, within the stated tolerance.",["src/features/period/","src/lib.rs"]),
("C21","Key of clean music is detected and follows transposition","For a clean track in a major or minor key the reported key is that key, and shifting the track by a number of semitones shifts the reported key by the same number.",["src/features/key/","src/features/chroma/"]),
("C22","Analysis is insensitive to overall gain","Scaling a track by a constant gain that neither clips nor silences it leaves BPM, key and beat grid unchanged.",["src/preprocessing/normalization.rs","src/lib.rs"]),
("C23","Normalisation reaches its target without clipping","After normalisation the track's peak, RMS or loudness is at the configured target or limited by headroom, and the reported gain is the gain applied.",["src/preprocessing/normalization.rs"]),
("C24","Silence trimming removes only silence","Trimming removes exactly the leading and trailing parts below the threshold, keeps all audible audio in order, and the reported regions describe the original samples.",["src/preprocessing/silence.rs"]),
("C25","Onset lists are sorted, in range and monotone in threshold","Every onset detector returns strictly increasing positions inside the signal, and a higher threshold never adds onsets.",["src/features/onset/"]),
("C26","Onset voting is a weighted consensus","Voting merges detections closer than the tolerance once, weights them as configured and is independent of the order in which detectors are listed.",["src/features/onset/consensus.rs"]),
("C27","Chroma vectors are normalised pitch-class energy","Every chroma vector has twelve non-negative entries of unit norm or is all zero, and octave shifts of the audio leave it unchanged.",["src/features/chroma/"]),
("C28","Key notation round-trips","Every key's numerical notation parses back to the same key and no other text is accepted.",["src/analysis/result.rs"]),
("C29","Beat grid follows the onsets at the given tempo","On regular onsets the beats lie on them, spaced by the beat period, with bars of the detected metre.",["src/features/beat_tracking/"]),
("C30","Documented defaults and configuration options take effect","Every configuration option changes the stage it documents and only that stage, and the defaults are those documented.",["src/config.rs","src/lib.rs"]),
("C31","Channel mixing modes compute the documented mix","Each stereo-to-mono mode computes its documented combination for every pair of channels and rejects unequal lengths.",["src/preprocessing/channel_mixer.rs"]),
]
for id,t,s,f in NA:
    P(id,t,s,["inputs","configurations"] if id!="C28" else ["inputs"],"every input of a sequential, side-effect-free computation","Tests sample a few signals and parameter values.",f,[("numerical algorithm",", ".join(f))],observe=["return value"])
