#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json.

Run `python3 tools/gen_docs.py` after editing; both outputs are committed.
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/aspsim/"

def P(id, title, statement, over, qtext, why, files, mech, observe, note, technique):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=[S + f for f in files], mech=mech, observe=observe, note=note, technique=technique)

PROPS = [
P("C01", "Microphone signals are the sum of convolutions of sources with their paths",
  "For every set of source and microphone arrays, every impulse response between them and every source signal, each sample of each microphone equals the sum over all sources of the full linear convolution of that source's signal with the impulse response for exactly that source and microphone, without delay, gain, truncation or cross-talk. If sources are configured to start before time 0 the convolution includes that earlier part of the signal, otherwise the sources are silent before time 0. What the source object delivers appears unchanged, in order and without gaps, as the recorded source signal.",
  ["inputs", "configurations"],
  "All numbers/sizes of source and microphone arrays, channel counts, impulse response lengths and values, source kinds, buffer/chunk sizes, start-before-0 flag.",
  "Existing tests compare a handful of fixed layouts with random or ISM responses; the claim is over every array layout, response length and chunk/buffer geometry.",
  ["simulator.py", "array.py"],
  [("source sampling and filtering per sample", "simulator.py Propagator.prepare/propagate"), ("path storage src x mic", "array.py ArrayCollection.set_prop_path / setup_ir")],
  ["diagnostic recordings of microphone and source signals", "signal buffers visible to a processor"],
  "Generated simulations compared with an independent full-convolution reference (numpy) on every recorded sample; double precision tolerance 1e-9 relative.",
  "property-based testing against a convolution reference model"),
P("C02", "Results are independent of buffer, chunk, block and export settings",
  "For one acoustic scene, the recorded source and microphone signals as functions of time are the same whatever chunk size, buffer size, export frequency, set of diagnostics, source-contribution logging or total length (on the common part) is configured. They are also the same whether no processor is attached, or a processor of any block size that does not write to any signal (with sources starting at time 0, or with equal buffer size if they start earlier). Signals are continuous across every internal buffer boundary.",
  ["configurations", "schedules"],
  "All pairs of admissible buffer/chunk/export/length/block-size settings for the same arrays, paths and sources.",
  "Two tests compare one fixed pair of settings; boundary errors need particular relations between chunk size, block size and recording length.",
  ["simulator.py", "diagnostics/core.py", "diagnostics/diagnostics.py"],
  [("chunk reset", "simulator.py Signals._reset_signals / Simulator.last_block_on_buffer"), ("partial saves", "diagnostics/core.py Logger.save_data")],
  ["diagnostic recordings"],
  "Metamorphic: the same scene is run under two or more generated settings and recordings compared sample by sample.",
  "metamorphic property-based testing over configurations"),
P("C03", "Recorded source contributions add up to the microphone signal",
  "When logging of source contributions is enabled, there is one contribution signal per source array and microphone array, equal to the convolution of that source array alone with its paths to that microphone array. At every sample, including the pre-history before time 0, the contributions to a microphone array add up to that microphone array's signal. Enabling the logging changes no other signal.",
  ["inputs", "configurations", "histories"],
  "All scenes with free and controllable sources, every sample in the buffers during a run.",
  "No existing test enables contribution logging.",
  ["simulator.py"],
  [("contribution signals", "simulator.py Signals.__init__, Propagator.prepare, Propagator.propagate")],
  ["signal buffers visible to a processor", "diagnostic recordings of contribution signals"],
  "Generated scenes with contributions on; sums and single-source references compared at every buffer sample at every processing step.",
  "property-based testing with invariant over the run history"),
P("C04", "Processors are scheduled every block and act causally",
  "A processor with block size B is called exactly once per B simulated samples, in order, until at least the configured total number of samples has been processed, and at each call the buffers hold all microphone samples before the current time, reaching back at least the configured buffer length less one block. Values it writes to a controllable source for the next B samples are emitted at exactly those times and reach the microphones through the corresponding paths with no additional delay, and values written are never lost or altered when the internal buffers roll over. Signals the processor creates itself persist with the same time alignment as the built-in signals.",
  ["schedules", "inputs", "histories"],
  "All block sizes, buffer/chunk sizes (including block sizes not dividing the chunk), scripted and feedback processors, processor-created signals.",
  "Tests use one debug processor with few fixed block sizes that divide the chunk size.",
  ["simulator.py", "processor.py"],
  [("processing loop", "simulator.py Simulator.run_simulation"), ("buffer rollover", "simulator.py Signals._reset_signals"), ("processor signals", "simulator.py Simulator._prepare_simulation")],
  ["processor.process calls and the buffers visible to it", "diagnostic recordings"],
  "Stateful model: a recording processor with a generated per-block script is compared with a global-time reference simulator (whole-signal convolution, feedback included).",
  "model-based stateful property testing"),
P("C05", "Signal recordings and exports contain exactly the requested samples",
  "A signal recording contains, for each requested half-open time interval, exactly the signal's samples at those times for exactly the requested channels, and nothing outside the intervals. For every export time from 1 up to the total length an export file is produced, named by diagnostic and time, holding exactly the recorded samples with time below the export time in chronological order, at all requested export times and no others, independent of how block, chunk and interval boundaries fall. If only the last export is to be kept, precisely the latest export file of that diagnostic remains and no other file is touched.",
  ["configurations", "schedules", "inputs"],
  "All interval lists, export lists/frequencies, channel selections, block/chunk/buffer sizes, with and without processor, several diagnostics side by side.",
  "Existing tests use a few fixed intervals and block sizes; interval ends meeting chunk resets and exports need specific combinations.",
  ["diagnostics/core.py", "diagnostics/diagnostics.py", "diagnostics/plot.py", "fileutilities.py"],
  [("save/export schedule", "diagnostics/core.py Logger.save_data/dispatch"), ("interval bookkeeping", "diagnostics/core.py IntervalCounter/IndexCounter"), ("file export", "diagnostics/plot.py savenpz")],
  ["get_output of the diagnostics", "exported npz files"],
  "Generated interval/export schedules compared with a direct slice of a reference signal whose value encodes channel and time; directory contents compared exactly.",
  "property-based testing against a slicing reference model"),
P("C06", "State and snapshot diagnostics record the state at the requested times",
  "A diagnostic that records a processor property every F samples holds one entry per multiple of F up to the total length, in order, each equal to (the stated function of) that property after the last block completed by then, and exports at time T contain exactly the entries belonging to times before T. A snapshot diagnostic records and exports at each requested time a deep copy of the property's value after the last block completed by then, unaffected by later changes. Nested attribute, key and index access paths select the named value.",
  ["schedules", "inputs", "histories"],
  "All save frequencies/lists, export times, block and chunk sizes, state shapes and evolution scripts, property access paths.",
  "The existing tests of state diagnostics cover a fixed frequency and one block size (and most are not reliably passing).",
  ["diagnostics/core.py", "diagnostics/diagnostics.py", "diagnostics/diagnosticscollection.py"],
  [("state save schedule", "diagnostics/core.py IntervalCounter.from_frequency, StateDiagnostic, InstantDiagnostic"), ("property access", "diagnostics/core.py attritemgetter"), ("selection by time", "diagnostics/core.py get_values_from_selection")],
  ["get_output, exported npz files"],
  "A processor whose state is a known function of the number of processed samples; entries decoded and compared with the schedule, exported files compared exactly. Whether a block ending exactly at the requested time counts as completed is left open but must be consistent.",
  "property-based testing against a schedule model"),
P("C07", "Derived diagnostics equal their definition on the recorded signals",
  "Signal power, power ratio, signal summary, power spectrum, sound field power, state power/summary/comparison and eigenvalue diagnostics report exactly the value their definition gives when applied to the complete requested signal range, channels or state. The reported values do not depend on chunk size or on how the requested range is split by internal buffer boundaries. All of them work with and without a processor whenever they only use signals.",
  ["inputs", "configurations"],
  "All signal values, ranges, channel selections, smoothing lengths, segment lengths, matrices, chunk/buffer sizes.",
  "No reliable existing test covers these diagnostics.",
  ["diagnostics/diagnostics.py", "diagnostics/diagnosticscollection.py", "diagnostics/diagnosticsummary.py", "diagnostics/preprocessing.py"],
  [("power diagnostics", "diagnostics/diagnostics.py SignalPower, SignalPowerRatio, StatePower, SoundfieldPower"), ("summaries", "diagnostics/diagnosticscollection.py SignalSummary, SignalPowerSpectrum, EigenvaluesOverTime")],
  ["get_output of the diagnostics", "exported files"],
  "Each diagnostic compared with a from-definition numpy/scipy oracle on the full recorded signal, over generated ranges and chunkings.",
  "differential property-based testing against definitions"),
P("C08", "Moving arrays are simulated with the response of the current position",
  "When a source or microphone array moves, every microphone sample is the convolution of the source signals with the impulse response belonging to the array positions of the most recent position update, for all moving and static arrays at the same time. Positions are updated on every multiple of the configured update interval and follow the trajectory, and the positions logged by the array are exactly those. An array whose trajectory never moves gives the same signals as a static array at that position, and moving a source past a microphone equals moving the microphone past the source.",
  ["inputs", "schedules", "configurations"],
  "All trajectories (incl. several moving arrays at once), update intervals, mixes of moving/static arrays, room settings.",
  "Existing tests move one array with one trajectory at update interval 1.",
  ["array.py", "simulator.py", "room/trajectory.py"],
  [("position and path update", "array.py ArrayCollection.update/update_path"), ("time-varying filtering", "simulator.py Propagator.propagate")],
  ["diagnostic recordings", "array.pos_all / time_all"],
  "Reference: responses of static arrays at the visited positions (static simulators; C10 checks those against an independent model) applied as a time-varying FIR; a one-sample update latency is accepted as 0 or 1 but must be constant.",
  "property-based testing against a time-varying reference model"),
P("C09", "Trajectories follow their specification",
  "A linear trajectory visits its anchor points in order along straight lines, is back at the first point after exactly one period and repeats periodically; in constant speed mode equal times cover equal distances, and in constant time mode every segment takes the same time. A circular trajectory starts at the outer radius at the start angle, stays between the inner and outer radius, turns uniformly once per angle period and goes outer-inner-outer linearly once per radial period. A collection of trajectories gives at each time the concatenation of its members' positions.",
  ["inputs"],
  "All anchor lists (2D/3D), periods, sample rates, modes, radii, start angles, times (also beyond one period and non-integer).",
  "Existing tests only use trajectories inside one simulation and check no speed, period or segment law.",
  ["room/trajectory.py"],
  [("linear", "room/trajectory.py LinearTrajectory"), ("circular", "room/trajectory.py CircularTrajectory"), ("collection", "room/trajectory.py TrajectoryCollection")],
  ["current_pos"],
  "Closed-form position oracle by arc-length/segment time evaluated at generated times.",
  "property-based testing against a closed-form oracle"),
P("C10", "Generated room impulse responses obey the physics of the configured room",
  "Room responses between any sources and microphones inside the room are finite, have the configured length, and each source-microphone pair's response equals that of the same pair simulated alone, independent of the number and order of other sources and microphones. The direct sound arrives at distance divided by the configured speed of sound times the sample rate (plus the configured extra delay) with amplitude inversely proportional to distance, responses with zero reverberation time contain only the direct sound, and for longer reverberation times match the image source model of a room of exactly the configured size, centre and reverberation time. Exchanging source and microphone, mirroring or translating the whole scene together with the room centre leaves responses unchanged, and a shorter maximum response length gives a prefix of the longer response.",
  ["inputs", "configurations"],
  "All room sizes/centres, reverberation times, sample rates, speeds of sound, extra delays, position sets (also more than 500 microphones).",
  "Existing tests check only that responses at different positions differ.",
  ["room/roomimpulseresponse.py", "array.py"],
  [("image source model call", "room/roomimpulseresponse.py PathGenerator.create_path, ir_room_image_source_3d")],
  ["paths of the created simulator"],
  "Metamorphic relations plus an independent image-source model (numpy, Sabine absorption, windowed sinc interpolation); tolerance covers the interpolation table and single precision of the library underneath.",
  "metamorphic and differential property-based testing"),
P("C11", "Each path has the type, shape and filtering the user asked for",
  "For every source-microphone pair the response used is the one the user set explicitly (bit-identical, never overwritten or filtered) if there is one, otherwise one of the type set for the pair, otherwise one of the configured default type: all zeros for none, unit gain between equally numbered elements for direct, random values of the configured length for random, and the room response for ism. If a highpass cutoff is configured every generated response is filtered with zero phase, attenuating content well below the cutoff and preserving content well above it. The recorded path metadata names the type actually used, and wrongly shaped user responses are rejected.",
  ["configurations", "inputs"],
  "All assignments of path types/user paths to pairs, order of adding arrays and setting paths, cutoff values.",
  "Existing tests use one path type per simulation; mixtures and order of set-up calls are not sampled.",
  ["array.py", "room/roomimpulseresponse.py", "simulator.py"],
  [("default and explicit path types", "array.py set_default_path_type, set_prop_path, set_path_types, setup_ir"), ("path creation", "room/roomimpulseresponse.py create_path, filter_rirs")],
  ["paths and path metadata of the created simulator"],
  "Generated mixtures of types/user paths compared with an explicit precedence model; highpass compared in the frequency domain with an independent zero-phase reference. User responses are float64 arrays; adding a whole collection transfers arrays and path types, user responses are set afterwards.",
  "property-based testing against a precedence model"),
P("C12", "Source signals do not depend on how they are split into blocks",
  "For every source type and parameters, asking for a total of N samples in any sequence of block lengths gives the same signal as asking for N samples at once from an identically constructed and seeded source. Every block has one row per channel and exactly the requested number of columns. Blocks already delivered are not changed by later requests, and the data the caller supplied is not modified.",
  ["inputs", "histories"],
  "All source types, channel counts, parameters, seeds and partitions of N into blocks (including zero-length-free 1-sample blocks).",
  "Existing tests use equal block sizes and mostly a single channel.",
  ["signal/sources.py", "utilities.py"],
  [("stateful generation", "signal/sources.py *.get_samples"), ("cyclic block split", "utilities.py calc_block_sizes")],
  ["get_samples"],
  "Two identically seeded sources, one drawn at once, one in a generated partition; comparison to 1e-9. Also checked: scribbling over a delivered block does not change later ones.",
  "metamorphic property-based testing"),
P("C13", "Sources produce the signal their parameters describe",
  "Sine and multi-sine sources produce exactly the requested frequencies at the requested total power with continuous phase, pulse trains have pulses of the given amplitude exactly at delay plus multiples of the period per channel, counters count by one, and maximum length and Gold sequences are two-valued sequences with the full period and their known correlation values. Noise sources have the requested power per channel (also after the power is changed), channels are mutually uncorrelated, band-limited noise has its power inside the band and autocorrelation sources have the requested autocorrelation, each up to sampling error. Two sources with equally seeded generators give equal signals and differently seeded ones differ.",
  ["inputs"],
  "All parameter choices: powers, frequencies, periods, delays, orders, bands, autocorrelations, seeds and channel counts.",
  "Existing tests check blocks and one pulse train; no test checks power, frequency, period or correlation over parameters.",
  ["signal/sources.py"],
  [("waveform generation", "signal/sources.py SineSource, MultiSineSource, PulseTrain, Counter, MLS, GoldSequenceSource"), ("noise generation", "signal/sources.py WhiteNoiseSource, BandlimitedNoiseSource, AutocorrSource")],
  ["get_samples"],
  "Exact laws for deterministic waveforms (recurrence, period, correlation); statistical laws with bounds chosen for false alarm probability below 1e-9 per case. Pulse positions are judged modulo the period; Gold sequences for orders divisible by 4 only as two-valued and periodic.",
  "property-based testing with exact and statistical oracles"),
P("C14", "Sequence sources play the given audio exactly, with the chosen ending",
  "A sequence source plays the supplied samples in order, scaled by the amplitude factor, for every ending mode. In repeat mode it continues cyclically forever, in zeros mode it is silent after the last sample, and in raise mode every supplied sample can be played and only a request beyond the end raises. This holds for every sequence length, block length and number of channels, also for blocks longer than the sequence.",
  ["inputs", "histories"],
  "All sequences, amplitude factors, end modes and request histories.",
  "Existing tests cover repeat mode with two block sizes only.",
  ["signal/sources.py", "utilities.py"],
  [("playback", "signal/sources.py Sequence.get_samples")],
  ["get_samples"],
  "Direct index model of the played sequence for generated request histories.",
  "model-based stateful property testing"),
P("C15", "Regions: membership, grid points and random points agree",
  "For every region shape, size and position, membership of each point is decided independently of the other points queried and matches the geometric definition, the region's volume is its geometric volume, and all grid points and all randomly sampled points lie in the region. Grid points form a regular grid with exactly the configured spacing, centred in the region, leaving no gap larger than the spacing allows, and random points come in the requested number, depend only on the supplied generator and are uniformly distributed. Translating the region translates grid and membership with it.",
  ["inputs"],
  "All shapes (cuboid, rectangle, disc, ball, cylinder), sizes, centres, spacings, query point sets and seeds.",
  "Existing tests use one fixed size per shape centred near the origin and do not test membership against geometry.",
  ["room/region.py"],
  [("membership and sampling", "room/region.py Cuboid, Rectangle, Disc, Ball, Cylinder")],
  ["is_in_region, equally_spaced_points, sample_points, volume"],
  "Geometric oracle for membership with margin around boundaries, lattice check for grids, chi-square uniformity with 1e-9 bounds. Spacings up to the side length (4/3 of the radius for round shapes).",
  "property-based testing against a geometric oracle"),
P("C16", "Combined regions behave as the disjoint union of their parts",
  "A combined region contains a point exactly if one of its parts does, its volume is the sum of the parts' volumes, and its grid is the concatenation of the parts' grids in order. Random points are uniform over the union, so each part receives points in proportion to its volume, and the requested number is returned. Overlapping parts are rejected, and a microphone array over several regions has one position group per region in order.",
  ["inputs"],
  "All lists of regions (mixed shapes), their relative volumes, query points, seeds.",
  "No existing test constructs a combined region.",
  ["room/region.py", "array.py"],
  [("combination", "room/region.py CombinedRegion"), ("region arrays", "array.py RegionArray")],
  ["is_in_region, equally_spaced_points, sample_points, volume", "RegionArray.pos/group_idxs"],
  "Union oracle computed from the parts; volume-proportional sampling tested with binomial bounds at 1e-9.",
  "property-based testing against a union model"),
P("C17", "Point generators place the requested points on the specified shape",
  "Every point generator returns exactly the requested number of points on the specified shape: circle points at equal angle steps from the start angle and within the radius limits, rectangle points at equal distances along the perimeter starting at the given offset with every other point displaced outwards as on a rectangle larger by the extra side lengths, and filled grids covering exactly the given limits. A given height is applied to all points. Cartesian, polar and spherical conversions are mutually inverse and follow the documented angle conventions.",
  ["inputs"],
  "All numbers of points, dimensions, radii, offsets in [0,1], extra side lengths, heights, coordinates.",
  "The only existing test draws a figure without checking positions.",
  ["room/generatepoints.py"],
  [("generators", "room/generatepoints.py equiangular_circle, equidistant_rectangle, concentrical_circles, uniform_*, stacked_equidistant_rectangles, four_equidistant_rectangles"), ("conversions", "room/generatepoints.py cart2spherical, spherical2cart, cart2pol, pol2cart")],
  ["returned coordinates"],
  "Perimeter-parametrisation oracle, angle/radius laws, round trips. The first corner and direction of travel are left open; the random disc only within its radius; legacy *_old/_for_fewer generators are not included.",
  "property-based testing against parametric oracles and round trips"),
P("C18", "Loading a saved session is equivalent to generating it anew",
  "A saved session is reused only if every array, position, path choice and acoustic setting that determines the impulse responses is equal, and then the simulation gives the same signals as one without session loading, with the current sources, sources' states and non-acoustic settings. If anything that influences the impulse responses differs, or no complete matching session exists, responses are generated for the requested set-up and saved as a new session, leaving existing sessions untouched. Searching never fails because of unrelated or incomplete entries in the session folder.",
  ["histories", "configurations", "fault_sequences"],
  "All histories of saving sessions and then requesting a set-up that differs in none or one parameter; damaged and foreign entries in the folder.",
  "No existing test saves or loads a session.",
  ["saveloadsession.py", "array.py", "configutil.py", "simulator.py"],
  [("matching", "saveloadsession.py search_for_matching_session, configutil.py equal_audio, array.py prototype_equals"), ("save/load", "saveloadsession.py save_session, load_session, load_from_path")],
  ["recordings of simulations with and without session folder", "contents of the session folder"],
  "Differential: with vs without session folder over generated histories and single-parameter differences; injected damaged session folders. Whether a difference in an acoustically irrelevant setting prevents reuse is left open.",
  "stateful differential property testing with fault injection"),
P("C19", "Configuration survives saving and loading and is validated",
  "Every valid configuration written to a file and read back, by file or by folder, as path object or string, is equal in every field, and so is the configuration saved next to simulation results. The shipped default configuration loads and every documented option value is accepted. Invalid reverberation kinds, dimension mismatches and unknown or missing fields are rejected when loading or constructing.",
  ["configurations", "inputs"],
  "All configuration field values within their documented domains; single-field corruptions.",
  "No existing test writes or reads a configuration other than the default.",
  ["configutil.py", "simulator.py"],
  [("configuration class and file format", "configutil.py SimulatorInfo, load_from_file")],
  ["loaded configuration objects"],
  "Round trip over generated configurations and rejection of generated single-field corruptions. Numpy scalars, arrays and tuples count as equal to the numbers and lists they stand for.",
  "round-trip property-based testing"),
P("C20", "Every simulation writes complete metadata into its own new folder",
  "If a figure folder is configured, each created simulator gets a new, previously non-existing subfolder and no existing file or folder is changed. The folder holds the configuration, array metadata, path metadata and array positions that describe exactly the simulated set-up, as valid JSON or YAML for all source, array and path types, plus processor metadata once the simulation is run. Without figure folder, or with output disabled, nothing is written anywhere.",
  ["histories", "configurations"],
  "All mixes of array/source/path types and repeated set-ups within the same minute in the same parent folder.",
  "Existing tests write figures but never inspect metadata files or name collisions.",
  ["simulator.py", "array.py", "saveloadsession.py", "fileutilities.py", "signal/sources.py"],
  [("folder creation", "simulator.py _create_fig_folder, fileutilities.py get_unique_folder_name"), ("metadata", "array.py save_metadata, saveloadsession.py write_processor_metadata")],
  ["files on disk"],
  "Generated set-ups; directory snapshots before/after and decoded metadata compared with the set-up. JSON as Python reads it (Infinity allowed); tikz figures excluded.",
  "stateful property-based testing over the file system"),
P("C21", "Simulators are reproducible and isolated from each other",
  "Creating and running simulators repeatedly from the same set-up gives identical results for identically seeded sources, regardless of other simulators created or run in between with other settings. Creating or running a simulator does not modify the user's arrays, positions, paths, source objects or set-up, and changing the set-up after creation does not affect a simulator already created. Set-ups never share state with each other.",
  ["histories", "configurations"],
  "All interleavings of create, modify-set-up and run operations over several simulators and set-ups, incl. moving arrays and room responses.",
  "One test creates two consecutive simulators with random paths; interleavings are not explored.",
  ["simulator.py", "array.py", "room/roomimpulseresponse.py", "processor.py"],
  [("copying of the set-up", "simulator.py create_simulator"), ("process-wide acoustic constants", "room/roomimpulseresponse.py calc_rir_parameters")],
  ["recordings of each simulator", "user objects after use"],
  "Stateful: generated interleavings of create/modify/run compared with each simulator run alone in a fresh set-up. Randomness is that of seeded sources and the seeded global generator; trajectories are not altered in place after being handed over.",
  "stateful differential property testing"),
P("C22", "Phase and event counters follow their schedule",
  "For every phase definition, the phase at sample n is the one whose interval contains n (zero-length phases are skipped, infinite or negative lengths last forever), the first-sample flag is true exactly at the first sample of each phase, and after all finite phases the phase is none. Start indices are the cumulative sums of the lengths. An event with frequency f and offset o is reported exactly at samples congruent to o modulo f.",
  ["inputs", "histories"],
  "All phase length lists (incl. zero and infinite), numbers of steps, event definitions added before or during counting.",
  "No existing test covers the counters.",
  ["counter.py"],
  [("phases", "counter.py PhaseCounter"), ("events", "counter.py EventCounter")],
  ["phase, first_sample, current_phase_is, event"],
  "Interval model stepped alongside the counter for generated definitions. Events are read after every step; the first-sample flag after the last phase is left open.",
  "model-based stateful property testing"),
P("C23", "File helpers never collide with or misidentify existing files",
  "A generated unique folder name never exists already, keeps the requested prefix and parent, and names requested several at once are distinct and unused. Looking up the highest-numbered file returns exactly the matching file with the largest number, and looking up earlier files returns exactly the files of that name with a smaller index, never those of other names, and reports newer files. The number at the end of a name is found exactly.",
  ["inputs", "histories"],
  "All directory contents (numbered, un-numbered, similar prefixes, several extensions), names and indices.",
  "No existing test covers these helpers.",
  ["fileutilities.py"],
  [("naming", "fileutilities.py get_unique_folder_name, get_multiple_unique_folder_names"), ("searching", "fileutilities.py get_highest_numbered_file, find_all_earlier_files, find_index_in_name")],
  ["returned paths"],
  "Generated directory trees in scratch folders compared with a set model.",
  "property-based testing against a set model"),
P("C24", "Numerical helpers match their mathematical definition",
  "Frequency-domain paths equal the discrete Fourier transform of each path with zero padding, arranged by frequency, microphone and source together with the matching frequencies in Hertz. Block-splitting helpers cover exactly the requested samples in order with no block crossing a buffer boundary. Smoothing, clipping and scaling preprocessors equal their formulas, and sorting for image display puts every grid value at the pixel of its position for any input order.",
  ["inputs"],
  "All path shapes and transform lengths, sample counts/offsets/block sizes, signals, grids in any order.",
  "Existing tests cover only one block-splitting helper.",
  ["array.py", "utilities.py", "processor.py", "diagnostics/preprocessing.py", "diagnostics/soundfieldplot.py"],
  [("frequency paths", "array.py get_freq_paths"), ("block helpers", "utilities.py calc_block_sizes, processor.py calc_block_sizes_with_buffer / block_process_until_index"), ("display", "diagnostics/preprocessing.py, diagnostics/soundfieldplot.py sort_for_imshow")],
  ["returned arrays"],
  "Direct-definition oracles (DFT matrix, index ranges, convolution, coordinate lookup).",
  "differential property-based testing"),
P("C25", "Two omnidirectional microphones form the specified cardioid",
  "For plane waves inside the usable band the differential cardioid has a null in the direction of the secondary microphone and its full response towards the main microphone, following the cardioid pattern in between, for every spacing, sample rate and speed of sound. The output has the shape and time alignment of the input, is linear and shift-invariant in the signals, and treats microphone pairs independently. With a low-frequency limit content well below it is suppressed and content above it unchanged.",
  ["inputs"],
  "All spacings below half a wavelength, filter orders, sample rates, speeds of sound, signals and channel counts.",
  "Two tests compare one geometry with a library simulation.",
  ["room/directional.py"],
  [("differential microphone", "room/directional.py differential_cardioid_microphone")],
  ["returned signal"],
  "Frequency-domain oracle with analytic plane waves; linearity, shift and channel-independence relations.",
  "metamorphic property-based testing"),
P("C26", "Audio files are read and written faithfully",
  "Loading an audio file returns one row per channel, limited to the requested number of channels, with unchanged samples when no resampling is requested, and a correctly resampled signal of the same duration and in-band content when a lower sample rate is requested. Exported audio has the simulation's sample rate, one track per recorded channel in order, exactly the recorded samples scaled to full scale and faded at both ends. This holds for mono and multi-channel files and all sample rates.",
  ["inputs"],
  "All channel counts, lengths, file and target sample rates, channel limits and recorded signals.",
  "No existing test reads or writes audio.",
  ["signal/sources.py", "diagnostics/plot.py"],
  [("reading", "signal/sources.py load_audio_file"), ("writing", "diagnostics/plot.py create_audio_files")],
  ["returned arrays", "wav files on disk"],
  "Round trip through generated wav files; in-band sine oracle for resampling; decoded exports compared with the fade formula. Fades: any common monotone gain over at most 10 % at each end; resampling judged by sines below 0.35 and above 0.65 of the new rate.",
  "round-trip property-based testing"),
P("C27", "Figures show exactly the exported data and are written where asked",
  "Every figure exported for a recorded signal, state, filter snapshot, eigenvalue or sound field shows exactly the values recorded (after the preprocessing asked for) before the export time, each at the sample it was recorded at or the place it belongs to, one labelled line per channel or response, every label once in the legend. The figure of the arrays shows every array at its positions, every region by its outline, and the walls of the room exactly when some path is computed with the image-source method. A figure is written in the configured format under the name of the diagnostic and the export time, nothing is written for output none or without folder, no figure is left open, other files are untouched, and tidying earlier tikz exports removes only those of the same figure while keeping their pdf.",
  ["inputs", "configurations"],
  "All signals/states/matrices, recording ranges, export times, preprocessing chains, export function combinations, formats, array layouts, regions, grids in any order, and folder contents.",
  "No existing test looks at a figure.",
  ["diagnostics/plot.py", "diagnostics/core.py", "diagnostics/soundfieldplot.py", "array.py", "room/region.py", "room/trajectory.py"],
  [("export functions", "diagnostics/plot.py function_of_time_plot / plot_ir / matshow / spectrum_plot / soundfield / output_plot"), ("array figure", "array.py ArrayCollection.plot, room/region.py plot, room/trajectory.py plot"), ("sound fields", "diagnostics/soundfieldplot.py sf_plot / compare_soundfields")],
  ["matplotlib artists at the moment the figure is written", "files in the figure folder"],
  "Generated simulations with savefig/show/tikz replaced by a recorder of the artists; oracle: reference signals and state model. tikzplotlib itself is not installed and replaced by a stand-in; rendering is not examined.",
  "model-based property testing of exported figures"),
]

NOT_APPLICABLE = []

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": S + w} for n, w in p["mech"]],
                            "observe_at": p["observe"]}}) + "\n")
    have = {p["id"] for p in PROPS if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))}
    na = list(NOT_APPLICABLE) + [{"property": p["id"], "reason": "check under construction"} for p in PROPS if p["id"] not in have]
    man = {"version": 1, "setup_cmd": "./setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                      for p in PROPS if p["id"] in have],
           "not_applicable": na,
           "notes": "No hooks are needed: every property is observed through the public API. Replay a violation with ./check <id> --replay <file>."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")

main()
