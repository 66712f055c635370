#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V)
from checks import CHECKS
P = []
ML, UV, AD, ECC = "src/core/mbelib.c", "src/core/mbe_unvoiced_fft.c", "src/core/mbe_adaptive.c", "src/ecc/ecc.c"
A24, A245, AC, I72, I71, H = "src/ambe/ambe3600x2400.c", "src/ambe/ambe3600x2450.c", "src/ambe/ambe_common.c", "src/imbe/imbe7200x4400.c", "src/imbe/imbe7100x4400.c", "include/mbelib-neo/mbelib.h"


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), tech="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note))


p("P01", "Memory safety and absence of undefined behaviour",
  "No sequence of public calls that respects the documented preconditions (bit arrays of 0/1, status buffer of errors + 3 bytes, valid decoder state) reads or writes outside the caller's buffers or the library's own objects, reads uninitialised memory, overflows a signed integer or converts an unrepresentable float. This includes damaged and random channel frames, every tone index, stuck and extreme-gain frames, and continuing one decoder state with another codec.",
  ["inputs", "histories"], "every received frame, error count, tone index, synthesis model within the documented ranges, and every order of public calls; scalar and SIMD code paths",
  "The sanitizer test preset runs a few fixed frames; out-of-range indexing depends on particular parameter values, on pairs of consecutive frames (both at the harmonic limit) or on error counts.",
  [A24, A245, AC, I72, I71, ML, UV, AD, ECC], [("bounds of harmonic interpolation in amplitude prediction", I72 + ":mbe_decodeImbe4400Parms"), ("FFT bin ranges per band", UV + ":mbe_synthesizeUnvoicedFFTWithNoise"), ("status string writing", A24 + ":mbe_processAmbe2400Dataf"), ("tone table lookup", ML + ":mbe_lookupToneFreqs")],
  observe=["sanitizer reports", "contents of every output buffer"],
  tech="structured random call sequences over exact-size heap buffers under ASan+UBSan (scalar and SIMD builds) and MSan, with shrinking",
  note="Random exploration (about 84,000 sequences per build in quick, some of them streams of 300 to 1,500 frames). A report of ASan, UBSan (incl. float-cast-overflow) or MSan in library code is the violation. Trusts the sanitizers and clang; GCC-only code generation is not covered.")

p("P02", "Audio is always complete, finite and within full scale; state stays finite",
  "Every call that produces audio writes all 160 samples, each finite and within the clipping limit (95 % of 16-bit full scale; floats divided by 7), and leaves a decoder state whose numbers are all finite with 9 to 56 harmonics and, as long as no more than 20 errors are reported for a frame, non-negative amplitudes. The status string is terminated and consists of one '=' per reported error followed only by the letters R, M, T or E. This holds for any history, including stuck maximum-gain frames, erasures, damaged frames, and direct synthesis of very loud models.",
  ["inputs", "histories"], "all histories of received or parameter frames for the four codecs including frames repeated for seconds; all spectral models with amplitudes up to 2^33; all tone indices; scalar, SIMD and fast-math release builds",
  "Golden-PCM tests decode a handful of moderate frames; overflow and NaN need feedback over dozens of extreme frames or a particular frame type followed by a repeat.",
  [ML, UV, AD, A24, A245, I72, I71], [("clipping of the mixed output", ML + ":mbe_clipFloatBuffer"), ("weights of spectral enhancement", ML + ":mbe_spectralAmpEnhance"), ("energy floor of the unvoiced scale", UV + ":mbe_synthesizeUnvoicedFFTWithNoise"), ("amplitude cap of adaptive smoothing", AD + ":mbe_applyAdaptiveSmoothing")],
  observe=["160 float or 16-bit samples", "status string", "decoder state"],
  tech="random and adversarial decode histories with poisoned output buffers; range/finiteness invariant after every frame",
  note="Random exploration plus recorded worst-case frames; output poisoned with a NaN pattern (floats) or an out-of-range value (shorts) so that an unwritten sample shows.")

p("P03", "Golay(23,12) decoding of every received word",
  "Decoding any 23-bit word yields the data bits of the unique codeword within distance 3 (every word has exactly one), and the bit-vector form reports the number of data bits that were corrected and copies the received parity bits unchanged; bits above the 23-bit word never influence the result or cause harm.",
  ["inputs"], "all 2^23 words, and arbitrary values of the bits above the word",
  "The unit tests decode a few words; the correction table has 2048 entries, each used by 4096 words.",
  [ECC, "src/ecc/ecc_const.c"], [("syndrome and correction table", ECC + ":mbe_checkGolayBlock"), ("bit-vector wrapper", ECC + ":mbe_golay2312")],
  observe=["decoded block / bits", "returned error count"],
  tech="exhaustive enumeration of received words plus random codeword+error+high-bit cases against an independently generated perfect code",
  note="All 2^23 words are enumerated for both entry points; reference built from the generator polynomial, not from the library's tables.")

p("P04", "Hamming(15,11) decoding of every received word, both bit mappings",
  "Decoding any 15-bit word with either Hamming decoder returns the unique codeword within distance one and the count 0 or 1 of corrected bits, independent of what was decoded before.",
  ["inputs"], "all 2^15 words for both decoders; all orders of calls",
  "The unit tests flip one bit of one codeword; the syndrome table has 16 entries per mapping and two parity maps.",
  [ECC, "src/ecc/ecc_const.c"], [("syndrome masks and bit map", ECC + ":mbe_hamming1511"), ("7100 variant", ECC + ":mbe_7100x4400hamming1511")],
  observe=["15 output bits", "returned error count"],
  tech="exhaustive enumeration of received words plus random interleaved call sequences against an independent Hamming reference", note="All 2^15 words, both decoders; interleaved sequences are sampled.")

p("P05", "Demodulation is the specified keystream XOR for every frame",
  "Demodulating a frame XORs exactly the specified pseudo-random keystream, derived from that frame's own seed bits, onto exactly the specified words of each codec, leaves every other bit alone, and is its own inverse.",
  ["inputs"], "every seed value of each codec and every frame content",
  "Existing tests demodulate one frame; the keystream has 4096 (AMBE, IMBE 7200) or 128 (IMBE 7100) seeds.",
  [AC, I72, I71], [("AMBE keystream", AC + ":mbe_demodulateAmbe3600Data_common"), ("IMBE 7200 keystream", I72 + ":mbe_demodulateImbe7200x4400Data"), ("IMBE 7100 keystream", I71 + ":mbe_demodulateImbe7100x4400Data")],
  observe=["frame after demodulation"],
  tech="enumeration of all seeds plus random frames against a reference keystream; involution metamorphic check", note="Every seed value enumerated; other frame bits sampled.")

p("P06", "Error correction recovers the transmitted parameters",
  "For each of the four channel formats, any parameter set encoded into a frame and hit by at most three bit errors in every Golay-protected word, at most one in every Hamming-protected word (and none in unprotected bits), is decoded to exactly the transmitted parameter bits, and the reported error counts equal the number of data-bit corrections made.",
  ["inputs", "fault_sequences"], "all parameter sets, all error patterns within the correction capability, four channel formats",
  "Tests use fixed frames and no systematic error patterns; interaction of word layout, keystream seed and interleaving is per bit.",
  [AC, I72, I71, ECC], [("frame ECC", AC + ":mbe_eccAmbe3600Data_common"), ("frame ECC", I72 + ":mbe_eccImbe7200x4400Data"), ("frame ECC", I71 + ":mbe_eccImbe7100x4400Data")],
  observe=["decoded parameter bits", "returned error counts", "error counts reported by the frame decoders"],
  tech="round-trip property: independent encoder, random errors within capability, library decoder", note="Random exploration with an encoder written from the channel description, including the status string and counts of the complete frame decoders.")

p("P07", "Any received frame is decoded as the reference channel decoder would",
  "For every content of a channel frame, including uncorrectable noise, the three-step decoding (first word, demodulation, remaining words) gives the parameter bits and the error counts of bounded-distance decoding of each word, and bits outside the code words have no influence.",
  ["inputs"], "every frame content of the four channel formats",
  "Only clean or nearly clean frames are tested; miscorrected frames drive the repeat and mute decisions and must be deterministic functions of the bits.",
  [AC, I72, I71, ECC], [("first-word correction feeding the keystream seed", AC + ":mbe_eccAmbe3600C0_common"), ("frame ECC", I72 + ":mbe_eccImbe7200x4400DataInternal"), ("frame ECC", I71 + ":mbe_eccImbe7100x4400DataInternal")],
  observe=["frame after each step", "parameter bits", "error counts"],
  tech="differential testing of random and heavily corrupted frames against a reference channel decoder", note="Random exploration.")

p("P08", "IMBE 7100 to 7200 parameter conversion is the specified bit permutation",
  "Converting a 7100-format parameter set moves every bit to the place that the 7200 format gives the same parameter for the frame's own pitch; nothing is lost, duplicated or invented, and the result depends on nothing else.",
  ["inputs"], "all pitch values and all parameter bits",
  "No existing test converts a set; the permutation differs for each harmonic count.",
  [I71], [("bit reordering", I71 + ":mbe_convertImbe7100to7200")], observe=["88 parameter bits"],
  tech="enumeration of every pitch value with single-bit probes plus random sets against a reference permutation", note="The complete permutation for all 256 pitch codes is enumerated; the random phase adds combinations.")

for id, nm, f, fn, kinds in (("P09", "AMBE+2 (2450)", A245, "mbe_decodeAmbe2450ParmsInternal", "voice, silence, erasure and tone"), ("P10", "AMBE D-STAR (2400)", A24, "mbe_decodeAmbe2400Parms", "voice, erasure and tone"), ("P11", "IMBE (4400)", I72, "mbe_decodeImbe4400Parms", "voice and invalid-pitch")):
    p(id, nm + " parameter decoding matches the specification model",
      "Decoding any %s parameter set on top of any previous-frame state classifies the frame (%s) and yields the fundamental frequency, harmonic count, voicing decisions, gain and spectral amplitudes of the codec's published decoding rules, including prediction from the previous frame with a different harmonic count. The previous frame is not changed beyond what the rules need." % (nm, kinds),
      ["inputs", "histories"], "all parameter bits and all previous-frame models reachable by decoding",
      "Parameter tests cover single fields of first frames; prediction couples two frames with any pair of harmonic counts.",
      [f], [("parameter decoding", f + ":" + fn)], state=[{"name": "previous-frame log amplitudes and gain", "meaning": "prediction memory", "where": H + ":mbe_parms"}],
      observe=["return class", "fundamental, harmonics, voicing, amplitudes of the current frame"],
      tech="differential testing against a double-precision reference decoder over random frames and previous states, including whole histories",
      note="Random exploration; reference arithmetic in double, tolerance covers float rounding only. Quantiser tables were copied from the tree once and are frozen in the check; a later change of a table entry is seen.")

for id, nm, f, fn, extra in (("P12", "AMBE+2 (2450)", A245, "mbe_processAmbe2450Dataf_internal", "silence, erasures give comfort noise, tones are rendered, damaged frames repeat the previous frame up to three times and then mute with a state reset"),
                            ("P13", "D-STAR (2400)", A24, "mbe_processAmbe2400Dataf", "erasures give comfort noise, error-free D-STAR tones are rendered, damaged frames repeat the previous frame up to three times and then mute with a state reset"),
                            ("P14", "IMBE (7200/7100)", I72, "mbe_processImbe4400Dataf_withC0", "damaged or invalid frames repeat the previous frame up to three times, then a default model is used, and audio is muted while the error rate is too high")):
    p(id, nm + " frame handling follows the repeat/mute/tone state machine",
      "Over any history of frames, each frame is handled as the codec's rules say: %s. The status string shows exactly the error count and the handling, and the audio and all three frame states after every step are those of the rule applied." % extra,
      ["histories", "inputs", "fault_sequences"], "all histories of frames (voice, silence, tone, erasure, invalid, damaged) at frame level and parameter level",
      "Existing tests run one or two frames; repeats, headroom and resets need particular sequences of good and bad frames.",
      [f, AC, AD], [("frame state machine", f + ":" + fn), ("muting and repeat predicates", AD + ":mbe_isMaxFrameRepeat")],
      state=[{"name": "repeat counters, error rate, three frame states", "meaning": "the decoder's history", "where": H + ":mbe_parms"}],
      observe=["status string", "audio samples", "the three frame states"],
      tech="stateful model-based testing: random frame histories, independent one-frame model run beside the decoder, compared after every step",
      note="Random exploration. The model takes parameter decoding, enhancement and synthesis from the library (decided by P09-P11, P16-P23); classification, order and state transitions are its own.")

p("P15", "Error-rate tracking and the muting/smoothing predicates",
  "The tracked error rate is 0.95 times the previous rate plus the codec's constant times the frame's corrected bits, is never negative, and repeated frames take over the repeated frame's statistics; the muting, maximum-repeat and smoothing predicates answer exactly by the documented thresholds for every state.",
  ["histories", "inputs"], "all sequences of error counts and all values of the statistics, including values next to the thresholds",
  "Tests evaluate the predicates at one or two values; the rate is a recursion over the whole history.",
  [AD, A24, A245, I72], [("predicates", AD + ":mbe_requiresMuting, mbe_isMaxFrameRepeat, mbe_requiresAdaptiveSmoothing"), ("rate recursion", I72 + ":mbe_processImbe4400Dataf_withC0")],
  observe=["error statistics of the state", "predicate results"],
  tech="stateful recursion model over random histories plus boundary-value generation for the predicates", note="Random exploration with threshold-adjacent values.")

p("P16", "Adaptive smoothing follows the specified rules for every frame",
  "When the error statistics call for it, smoothing updates the smoothed energy, forces strong harmonics voiced by the adaptive threshold, and scales all amplitudes by one common factor when their sum exceeds the error-dependent limit, exactly as the vocoder specification computes them; otherwise the spectrum and voicing stay untouched and only the tracked values advance.",
  ["inputs", "histories"], "all spectra, error statistics and previous tracking values",
  "Tests call it for one fixed spectrum; there are several error regimes and a limit that depends on the previous frame.",
  [AD, ML], [("adaptive smoothing", AD + ":mbe_applyAdaptiveSmoothing"), ("hand-off of the pre-enhancement energy", AD + ":mbe_setPreEnhRm0")],
  state=[{"name": "smoothed energy and amplitude threshold", "meaning": "tracking memory", "where": H + ":mbe_parms"}], observe=["voicing, amplitudes, smoothed energy, threshold"],
  tech="differential testing against a double-precision reference over random spectra and error regimes", note="Random exploration; decisions where float rounding alone decides are accepted either way.")

p("P17", "Spectral enhancement preserves energy and follows the weighting rule",
  "Enhancement changes only the spectral amplitudes: low harmonics (8·l ≤ L) keep their shape, every other amplitude is multiplied by a weight computed by the specification's formula and limited to [0.5, 1.2], and the total energy after enhancement equals the energy before. Silent or single-amplitude spectra and non-periodic frames stay finite and unchanged in energy.",
  ["inputs"], "all spectra within the amplitude range of the codecs",
  "Golden tests compare the audio of a few spectra; weights clamp differently per harmonic.",
  [ML], [("enhancement", ML + ":mbe_spectralAmpEnhance")], observe=["amplitudes before and after"],
  tech="differential testing against a double-precision reference plus energy-preservation invariant", note="Random exploration, scalar and SIMD builds.")

p("P18", "Voiced synthesis equals the specified harmonic oscillator sum",
  "For any pair of consecutive models, the voiced part of the 160 samples equals the sum over harmonics of the specification's windowed or phase-interpolated oscillators, for each of the voiced/unvoiced transitions and for fundamentals that jump, and the frame's audio is the sum of its voiced and unvoiced parts.",
  ["inputs", "histories"], "all pairs of consecutive spectral models with any voicing pattern and phase state; scalar and SIMD builds",
  "Golden-PCM hashes fix the output of a few models; each harmonic has its own branch (window only, cross-fade, continuous interpolation).",
  [ML], [("oscillator bank", ML + ":mbe_synthesizeSpeechf"), ("SIMD block of four samples", ML + ":mbe_add_voiced_block4")], observe=["160 samples"],
  tech="differential testing against a double-precision reference synthesiser over random model pairs", note="Random exploration; tolerance scales with amplitude; frames where float rounding decides a branch are skipped and counted.")

p("P19", "Unvoiced synthesis equals the specified filtered noise overlap-add",
  "For any pair of consecutive models, the unvoiced part of the samples equals the specification's result: the frame's noise, windowed and transformed, scaled per harmonic band to the band's amplitude, zero in voiced bands and outside the signal band, transformed back and overlap-added with the previous frame under the symmetric synthesis window.",
  ["inputs", "histories"], "all models with any voicing pattern, all noise positions, all previous overlap contents; scalar and SIMD builds",
  "Golden tests fix a few frames; band edges depend on the fundamental and the harmonic count.",
  [UV], [("FFT noise shaping", UV + ":mbe_synthesizeUnvoicedFFTWithNoise"), ("overlap-add", UV + ":mbe_wola_combine_fast")],
  state=[{"name": "previous unvoiced block and noise overlap", "meaning": "overlap memory", "where": H + ":mbe_parms"}], observe=["160 samples", "stored unvoiced block"],
  tech="differential testing against a direct double-precision DFT reference", note="Random exploration; tolerance scales with amplitude; band-edge rounding cases skipped and counted.")

p("P20", "Harmonic phases advance continuously from frame to frame",
  "After every synthesized frame the oscillator phase of each harmonic equals its previous phase plus the mean of the old and new frequency over the frame, with the specified noise-driven offset only for the upper harmonics when unvoiced harmonics are present; a sustained voiced sound therefore continues without discontinuity across frame boundaries.",
  ["inputs", "histories"], "all pairs of models and phases, and steady sounds of any length",
  "Tests look at single frames; phase errors are audible only across several frames.",
  [ML], [("phase update", ML + ":mbe_synthesizeSpeechf")], state=[{"name": "phase tracks", "meaning": "oscillator phases", "where": H + ":mbe_parms"}], observe=["phases after each frame", "samples across frame boundaries"],
  tech="differential phase model plus continuity check of steady sounds over multi-frame histories", note="Random exploration; tolerance scales with phase magnitude.")

p("P21", "Unvoiced noise is the specified sequence, advanced once per synthesized frame",
  "The unvoiced noise of every synthesized frame is the specified linear congruential sequence overlapping the previous frame by 96 samples; frames that are not synthesized do not advance it, and repeated frames restart from the position stored with the repeated frame. A state starts cold with the per-thread seed and continues exactly from its own stored position.",
  ["histories", "inputs"], "all histories of frames, all seeds, all stored positions",
  "A determinism test compares two runs with the same seed; the position is spread over three frame states with different update rules.",
  [UV, ML], [("noise generator with overlap", UV + ":mbe_generate_noise_with_overlap"), ("cold start", ML + ":mbe_setThreadRngSeed")],
  state=[{"name": "noise position and 96-sample overlap", "meaning": "generator state per frame state", "where": H + ":mbe_parms"}], observe=["noise position and overlap in the state"],
  tech="stateful model of the generator over random histories, plus random single calls", note="Random exploration; integer sequence compared exactly.")

p("P22", "Tones are rendered with the specified frequencies, level and continuous phase",
  "Each AMBE tone index (single, DTMF, call-progress) and each D-STAR tone index gives the sum of its specified sinusoids at the level of the frame's amplitude field, continuing the phase of the preceding tone frame exactly; indices without a tone give silence and builds without tones give silence for all.",
  ["inputs", "histories"], "all tone indices and amplitudes, all start phases, sequences of tone frames",
  "Tests synthesize one or two tones; the tables have 150 entries and the phase is carried across frames.",
  [ML, A245, A24], [("tone tables", ML + ":mbe_lookupToneFreqs"), ("renderer", ML + ":mbe_renderTonef")], state=[{"name": "two tone phases", "meaning": "oscillator positions", "where": H + ":mbe_parms"}], observe=["160 samples per tone frame", "tone phases"],
  tech="enumeration of every index and amplitude plus random tone streams against a reference oscillator", note="All 256 indices x 128 amplitudes enumerated for scalar, SIMD and no-tones builds; start phases sampled.")

p("P23", "Comfort noise is the seeded reference sequence at the specified level",
  "Comfort-noise blocks are consecutive outputs of the specified 48-bit generator at the specified gain, start from the documented default or from the seed the thread set, and muted frames consume exactly one block; the 16-bit form is the float form put through the documented 16-bit conversion.",
  ["histories", "inputs"], "all seeds and all interleavings of comfort-noise calls, muted frames and reseeding",
  "Tests only check that noise is non-zero and deterministic.",
  [AD, ML], [("comfort-noise generator", AD + ":mbe_synthesizeComfortNoisef"), ("seeding", AD + ":mbe_seedComfortNoiseRng")], observe=["samples"],
  tech="reference generator run beside random sequences of noise, mute and reseed calls", note="Random exploration; exact or last-bit comparison.")

p("P24", "Decoding is deterministic",
  "Decoding the same frames from the same state and thread seed always gives bit-identical audio, status, parameter bits and state, whatever was decoded before on the thread, wherever the buffers lie and whatever they contained.",
  ["histories", "inputs"], "all histories, preceding activity and buffer contents",
  "One test repeats one fixed frame; hidden thread state, stale buffers or padding only show after particular preceding activity.",
  [ML, UV, AD, A24, A245, I72, I71], [("thread seed", ML + ":mbe_setThreadRngSeed"), ("thread-local generators and hand-off", AD)], observe=["audio", "status", "state bytes"],
  tech="metamorphic testing: the same random history run twice with different preceding activity, buffer addresses and fill", note="Random exploration, scalar and SIMD builds.")

p("P25", "Streams decoded in one thread do not influence each other",
  "Interleaving the frames of several decoder states on one thread in any order gives each stream exactly the audio, status and state it has when decoded alone, apart from comfort noise, which is drawn from one per-thread sequence.",
  ["schedules", "histories"], "all interleavings of several streams of the four codecs",
  "Tests decode one stream at a time.",
  [ML, UV, AD], [("all vocoder memory lives in the caller's states", H + ":mbe_parms"), ("thread-local hand-off tagged with its owner", AD + ":mbe_setPreEnhRm0")], observe=["audio", "status", "state of every stream"],
  tech="random schedules of several streams compared with each stream decoded alone", note="Random exploration; comfort noise compared through the reference sequence.")

p("P26", "Threads decode independently and without data races",
  "Streams decoded concurrently on different threads, including the first use of the library from several threads at once, give exactly the results of decoding each alone, and no call has a data race; seeds set on one thread affect no other.",
  ["schedules", "histories"], "all schedules of concurrent first use, seeding and decoding",
  "No existing test uses threads.",
  [ML, UV, AD], [("thread-local generators and workspaces", ML + ":mbe_get_fft_plan"), ("one-time dispatch setup", ML + ":mbe_init_runtime_dispatch")], observe=["audio", "status", "ThreadSanitizer reports"],
  tech="concurrent random histories compared with sequential runs, repeated under ThreadSanitizer", note="Schedules are the OS's, started at a barrier; ThreadSanitizer flags unsynchronised accesses on any schedule that executes them.")

p("P27", "The different forms of the API agree",
  "The 16-bit and float forms, the frame-level and the step-by-step (error correction, demodulation, parameter) forms, and the combined and separate synthesis calls give the same audio, status and state for the same input; the unused quality argument changes nothing, and inputs declared read-only are not modified.",
  ["inputs", "histories"], "all histories and inputs for which two forms are documented as equivalent",
  "Tests use each form on its own.",
  [A24, A245, I72, I71, ML, AD], [("16-bit wrappers", A245 + ":mbe_processAmbe3600x2450Frame"), ("frame-level entry points", I71 + ":mbe_processImbe7100x4400Framef")], observe=["audio", "status", "state", "parameter bits"],
  tech="metamorphic relations between API forms over random histories", note="Random exploration, scalar and SIMD builds.")

p("P28", "Build options do not change what is decoded",
  "The scalar, SIMD, fast-math and release (SIMD, fast-math, LTO) builds, the builds with debug logging, without optimisation and by another compiler decode every stream to the same parameter bits, error counts, status and frame handling, and to audio that differs at most by float rounding. The build without tones differs only in the audio of tone frames.",
  ["configurations", "inputs", "histories"], "all histories on every supported combination of build options",
  "Each preset's tests compare hashes or fixed tolerances for a few frames of that preset only.",
  [ML, UV, "CMakeLists.txt"], [("SIMD paths", UV + ":mbe_wola_combine_fast"), ("SIMD paths", ML + ":mbe_add_voiced_block4"), ("run-time dispatch", ML + ":mbe_init_runtime_dispatch")], observe=["parameter bits", "status", "audio", "state"],
  tech="differential testing of nine builds over random histories", note="Random exploration; x86-64 builds by GCC and Clang (no NEON). Frames where rounding alone decides a branch are skipped and counted.")

p("P29", "Float to 16-bit conversion is exact for every value",
  "Converting samples multiplies by 7, truncates toward zero and saturates at the documented limits for every float value except NaN, identically in the scalar and SIMD code and at every position of the block.",
  ["inputs", "configurations"], "every non-NaN float bit pattern; all block positions",
  "The parity test uses a few hundred values.",
  [ML], [("scalar and SIMD conversion", ML + ":mbe_floattoshort")], observe=["16-bit samples"],
  tech="exhaustive enumeration of float bit patterns plus random mixed blocks against an integer reference", note="All 2^32 patterns except NaN on three builds (quick and thorough).")

p("P30", "Initialisation and codec switching fully reset the decoder",
  "Initialising gives the same defined state whatever the memory held, so decoding afterwards equals decoding with fresh memory; continuing a state with a codec of the other family resets it as documented, and copying a state transfers the whole decoder history.",
  ["histories", "inputs"], "all memory contents before initialisation and all histories before a re-use or codec switch",
  "Tests initialise zeroed memory once.",
  [ML, AC], [("initialisation", ML + ":mbe_initMbeParms"), ("AMBE defaults on family change", AC + ":mbe_ensureAmbeDefaults_common")], observe=["state", "audio", "status"],
  tech="metamorphic testing: re-used and switched states compared with fresh ones over random histories", note="Random exploration.")

p("P31", "Decoding recovers after error bursts",
  "After any burst of damaged or lost frames followed by clean frames, the decoder's status, classification and fundamental return to those of the undamaged stream at once (only the muting of IMBE by its tracked error rate lasts until that rate has decayed), and its amplitudes, error rate and smoothing converge to the undamaged stream's within a bounded number of frames.",
  ["histories", "fault_sequences"], "all bursts (length, damage, frame types) in all streams of the four formats",
  "No existing test damages a stream and then continues it.",
  [A24, A245, I72, I71, AD], [("prediction with leakage", A245 + ":mbe_decodeAmbe2450ParmsInternal"), ("error-rate decay", AD), ("repeat counter reset", I72 + ":mbe_processImbe4400Dataf_withC0")], observe=["status", "state", "audio level"],
  tech="fault injection: random bursts into random streams, differential against the undamaged stream", note="Random exploration; convergence bound derived from the prediction and error-rate decay factors.")

p("P32", "Arbitrarily long streams stay stable and bounded",
  "Decoding a stream of any length keeps all tracked values in range (thresholds saturate instead of overflowing, phases stay bounded or wrap), audio of a steady input stays steady, and neither frames nor threads that come and go accumulate memory.",
  ["histories"], "streams of unbounded length with any mix of frames and errors; any number of short-lived threads",
  "Tests decode at most a few frames; accumulation shows after minutes to hours of audio.",
  [AD, ML, UV, AC], [("saturating threshold", AD + ":mbe_applyAdaptiveSmoothing"), ("phase wrap", ML + ":mbe_synthesizeSpeechf"), ("per-thread workspace", ML + ":mbe_get_fft_plan")], observe=["state", "allocated memory", "audio"],
  tech="long random soak histories, accelerated threshold states, and thread-churn heap accounting", note="Thousands of frames per soak, 70,000 frames per marathon; longer histories are reached by starting from states that such streams produce. One known finding (workspace of exited threads is not released) is listed in KNOWN_FINDINGS.")

p("P33", "Running out of memory only costs the noise component",
  "When any of the library's own memory allocations fails during a call, the call still completes with the same status, parameter bits, error counts, and state as with memory, apart from the noise component, which is left out of that frame's audio. Nothing stays allocated from the failed attempts, and once memory is available again the stream returns bit for bit to the undisturbed one within a few frames.",
  ["fault_sequences", "histories"], "every subset of the allocations of any number of calls, in streams of all codecs and in direct synthesis",
  "No existing test makes an allocation fail; a failure can only be met at a particular allocation of a thread's first synthesized frame.",
  [UV, ML, "src/external/pffft/pffft.c"], [("workspace construction and its roll-back", UV + ":mbe_fft_plan_alloc"), ("transform setup", "src/external/pffft/pffft.c:pffft_new_setup"), ("speech synthesis without a workspace", ML + ":mbe_synthesizeSpeechf")], observe=["audio", "status", "state", "allocations that stay live"],
  tech="fault injection by allocator interposition: random failure masks over the allocations of random streams, differential against the run with memory and the reference synthesis", note="Random exploration; every case on a thread of its own, since the workspace is made once per thread.")

p("P34", "Corrected channel errors are inaudible",
  "A stream whose frames are hit by channel errors that the error correction repairs decodes to bit-identical audio, parameters and state as the undamaged stream as long as no error is counted or the counted errors stay below the level at which smoothing starts; only the error statistics and the error marks in the status differ.",
  ["fault_sequences", "histories"], "every pattern of correctable errors on every frame of any stream of the four formats",
  "Existing tests damage single frames and compare bits, not the audio of whole streams.",
  [ECC, AC, I72, I71, AD], [("smoothing only above the error thresholds", AD + ":mbe_requiresAdaptiveSmoothing"), ("frame ECC", AC + ":mbe_eccAmbe3600Data_common"), ("frame ECC", I72 + ":mbe_eccImbe7200x4400Data")], observe=["audio", "status", "parameter bits", "state"],
  tech="metamorphic testing: random streams decoded with and without random correctable damage", note="Random exploration, scalar and SIMD builds.")

p("P35", "The two IMBE transmission formats are equivalent",
  "The same IMBE parameters give bit-identical audio, status, parameter bits and state whether they arrive in a 7200 frame, in a 7100 frame or directly as parameter bits, over whole streams, also when parity bits are damaged, unused frame bits are arbitrary, and pitch values are invalid. Channel errors that hit the same word of both formats in the same number are counted alike and handled alike.",
  ["inputs", "histories"], "all sequences of parameter sets in all three forms",
  "The formats are tested separately, with a frame or two each.",
  [I72, I71, ECC], [("conversion of parameter order", I71 + ":mbe_convertImbe7100to7200"), ("frame entry points", I71 + ":mbe_processImbe7100x4400Framef"), ("frame entry points", I72 + ":mbe_processImbe7200x4400Framef")], observe=["audio", "status", "parameter bits", "state"],
  tech="metamorphic testing of random parameter streams encoded independently in both formats", note="Random exploration, scalar and SIMD builds.")

p("P36", "No side effects; diagnostic dumps print exactly the data",
  "Decoding, synthesis and helper calls print nothing to standard output or error and leave the floating-point environment (rounding, flush-to-zero, precision) unchanged. The diagnostic dump calls print every bit of the parameters or of the frame's used cells in transmission order and do not modify them.",
  ["inputs", "histories"], "all frames and parameters given to the dump calls; all streams and helper calls",
  "The dump calls are only run, their output is not looked at; stray output or a changed floating-point mode shows only on particular paths.",
  [I72, I71, ML, UV], [("frame dump", I72 + ":mbe_dumpImbe7200x4400Frame"), ("frame dump", I71 + ":mbe_dumpImbe7100x4400Frame"), ("SIMD paths", UV)], observe=["bytes written to stdout and stderr", "floating-point control state"],
  tech="random data and random streams with captured standard streams against a reference listing; invariance of the control registers", note="Random exploration; x86-64 control registers.")

p("P37", "A stream can move in memory and between threads",
  "Between any two frames the decoder state of a stream may be copied to another place, its old place overwritten, and decoding continued there on any other thread, fresh or busy with other streams, with bit-identical results (comfort noise, which is drawn per thread, under the same thread seed).",
  ["histories", "schedules"], "all streams and all moves between frames",
  "Tests keep one state at one address on one thread.",
  [ML, AD, UV, AC], [("hand-off between enhancement and smoothing", ML + ":mbe_spectralAmpEnhance"), ("state copies", ML + ":mbe_moveMbeParms"), ("per-thread workspace", ML + ":mbe_get_fft_plan")], observe=["audio", "status", "state"],
  tech="metamorphic testing: random streams decoded in place and with random moves between frames", note="Random exploration, scalar and SIMD builds.")

p("P38", "Speech synthesis is linear in the spectral amplitudes",
  "For given pitch, voicing, phases and noise, the audio and the noise memory obtained from a weighted sum of two sets of amplitudes are the same weighted sum of what the two sets give, frame after frame, as long as the level stays below clipping and the error rate is too low for smoothing. Phases and noise sequence never depend on the amplitudes.",
  ["inputs", "histories"], "all amplitude pairs, weights, pitches and voicings, over consecutive frames",
  "The tests check the size of an output or one stored waveform; superposition ties every branch of the synthesis together for every combination of amplitudes.",
  [ML, UV], [("voiced oscillators and interpolation", ML + ":mbe_synthesizeSpeechf"), ("band scaling of the noise", UV + ":mbe_synthesizeUnvoicedFFTWithNoise")], observe=["audio", "state"],
  tech="metamorphic testing: the superposition relation over generated parameter pairs and histories", note="Random exploration with a rounding allowance derived from the amplitudes.")

p("P39", "The random seed influences only the noise",
  "Decoding one stream under different thread seeds gives the same status text, bits, error counts, decoded spectrum, error statistics, thresholds, low-harmonic phases and tones; only the noise, the jittered high-harmonic phases and the part of the audio made from them differ, and muted frames stay at the level of comfort noise under every seed.",
  ["inputs", "histories"], "all streams and all pairs of seeds",
  "Tests fix one seed, so a decision that leaks from the noise into the decoded parameters is invisible to them.",
  [ML, UV, AD], [("phase jitter", ML + ":mbe_synthesizeSpeechf"), ("seeded noise start", UV + ":mbe_synthesizeUnvoicedFFTWithNoise"), ("comfort noise", AD)], observe=["audio", "status", "state"],
  tech="differential testing of one generated stream under two seeds", note="Random exploration.")

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "observe_at": list(q["observe"]), "hook_needed": None}
        if q["state"]:
            a["state"] = list(q["state"])
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["quant"]}, "why_tests_cant": q["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": q["id"], "quick_cmd": "python3 check.py %s --tier quick" % q["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"], "evidence_file": "evidence/%s.json" % q["id"], "technique": q["tech"] + (" + coverage-guided tape mutation" if any(k.startswith("cov") for k in CHECKS[q["id"]]["kinds"]) else ""), "level": "exploration", "level_note": q["note"]} for q in P],
     "not_applicable": NA,
     "notes": "Every check builds the library variants it needs from /repo's working tree with the repository's own CMake files (out of tree, in /verif/build) and drives only the public API; no hooks. Replay a failure with: python3 check.py ID --replay FILE."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
