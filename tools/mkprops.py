"""Writes /verif/properties.jsonl (the list is edited here)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/aspsim/"+f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

S="simulator.py"; A="array.py"; D="diagnostics/core.py"; DD="diagnostics/diagnostics.py"; PL="diagnostics/plot.py"
p("C01","Microphone signals are the superposition of all source-path convolutions",
 "Every recorded microphone signal equals, sample by sample from time 0, the sum over all source channels (free sources and loudspeakers driven by a processor) of that source channel's signal linearly convolved with the impulse response from that source channel to that microphone. This holds for every number of arrays and channels, every impulse-response length (including longer than the buffers), and shows no artefact where internal buffers wrap around.",
 ["configurations","inputs"],"all array topologies, impulse responses, buffer, chunk, block and total lengths",
 "The tests compare one mic channel against a convolution in one 20-sample configuration that never wraps the buffer.",
 [S,A],[("Propagator.propagate",S),("Signals._reset_signals",S),("iter_paths/mic_src_combos",A)],
 [("sig.idx","local write position",S)],["RecordSignal output"])
p("C02","Results do not depend on the internal buffer and chunk lengths",
 "Changing only the simulation buffer length or the chunk length (within the lengths the block size allows; with sources started before time 0 only the chunk length, since the buffer is then the length of the pre-roll) changes nothing that can be observed: recorded signals, recorded states, what the processor is shown, and the set and content of exported files stay identical.",
 ["configurations","histories"],"all admissible buffer and chunk lengths for a fixed scenario, with and without a processor",
 "Tests use equal buffer, chunk and total lengths, so the wrap-around code runs in almost none of them.",
 [S,D],[("last_block_on_buffer/_reset_signals",S),("Logger.save_data",D)])
p("C03","A processor is called on a fixed schedule, sees the past and acts on the future",
 "A processor with block size B is called exactly once for every B samples until at least the requested total has been processed; at its k-th call it sees exactly the final values of microphone samples 0..kB-1 (and the true earlier history), never a later or an unfinished sample. The B samples it writes to a loudspeaker are played exactly once, unaltered, as loudspeaker samples kB..(k+1)B-1, and reach the microphones through the loudspeaker paths from that time on.",
 ["schedules","histories","configurations"],"all block sizes, totals, buffer and chunk lengths, and processors that write different values at every call",
 "Tests only compare the recorded loudspeaker with the delayed microphone for B<=5 on one buffer size with a silent feedback path.",
 [S,"processor.py"],[("Simulator.run_simulation",S),("Propagator.propagate",S)],[("sim.n_tot","global sample counter",S)])
p("C04","Separate source contributions are exact and add up to the microphone signal",
 "When saving of source contributions is enabled there is one contribution signal for every pair of a source array and a microphone array; it equals the sound that source array alone causes at that microphone array at every sample, and the contributions of all source arrays sum to the recorded microphone signal. Enabling the option does not change any other signal.",
 ["configurations","inputs"],"all topologies, path kinds, buffer lengths, with and without a processor and pre-roll",
 "No test enables the option.",[S],[("Signals.__init__/Propagator",S)])
p("C05","Sources start exactly when configured, and their stream has no gap or repeat",
 "With sources starting at time 0, everything before time 0 is silence and the first recorded source sample is the first sample of the source's own stream. With sources starting before time 0 they have been running for exactly one buffer length including time 0, and the microphones at time 0 and in the visible history already contain the filtered response of that pre-roll. In both cases the recorded source stream is contiguous: no sample is dropped, repeated or requested twice.",
 ["configurations","histories"],"both start modes, all buffer lengths, impulse-response lengths and source array counts",
 "No test uses the pre-roll or looks at samples before time 0.",[S],[("Propagator.prepare",S)])
p("C06","Signal recordings hold exactly the requested samples",
 "A signal recording contains, at each time index inside its requested intervals, exactly the value the signal had at that time (for all channels or the selected ones, in the selected order), and is marked as missing everywhere else; without intervals every sample from 0 to the total is recorded. This holds for every placement of intervals relative to blocks and internal buffer boundaries.",
 ["configurations","histories"],"all sets of disjoint intervals in a short simulation, all channel selections, block and buffer lengths",
 "The interval tests in the suite use a removed interface and fail before checking anything.",[D,DD],
 [("Logger.save_data",D),("IntervalCounter",D),("RecordSignal.save",DD)])
p("C07","State and snapshot recordings show the value after exactly X samples",
 "A state or snapshot recording scheduled at X (from a frequency or a list of indices) holds the value the processor's property had after X samples of the simulation had been processed, before any processing that needs a later sample. Recorded values are snapshots: later changes to the property do not alter them, every scheduled value is recorded exactly once and in order, and property expressions with attributes, integer indices and quoted keys select exactly the object the equivalent Python expression does.",
 ["schedules","histories","configurations"],"all save frequencies and index lists, block sizes and buffer lengths, and property expressions over nested objects",
 "The corresponding tests use a removed interface and fail before checking anything; state recordings are otherwise untested.",
 [D,DD,S],[("Logger.save_data",D),("attritemgetter",D),("RecordState/RecordFilter",DD)])
p("C08","Exports happen once per requested index and contain the data up to it",
 "For every export index up to the total and every diagnostic, exactly one export is produced, named after the diagnostic and that index, containing exactly the recorded values with time index below the export index (for snapshots, the snapshot of that index) after the requested preprocessing. When only the last export is to be kept, exactly that diagnostic's earlier data files are removed and no other file; nothing is exported when output is switched off or there is no result folder.",
 ["configurations","histories"],"all export frequencies and index lists crossed with save intervals, diagnostic kinds, export kinds and names that share prefixes",
 "Tests check file names for one diagnostic kind and compare contents of the last file only.",
 [D,PL,"fileutilities.py"],[("Logger.dispatch/export_this_idx",D),("savenpz/txt/create_audio_files",PL),("find_all_earlier_files","fileutilities.py")])
p("C09","Observing a simulation does not change it",
 "Adding, removing, reordering or reconfiguring diagnostics and exports changes neither any simulated signal, nor what the processor is shown or computes, nor the output of any other diagnostic.",
 ["configurations"],"all subsets and orders of a set of diagnostics of every kind, with and without exports",
 "Tests attach one diagnostic at a time.",[D,DD,S],[("Logger",D)])
p("C10","Each source-microphone pair uses exactly the propagation selected for it",
 "A path set explicitly by the user is used verbatim; a pair with an explicit propagation type uses that type; only the remaining pairs use the configured default. Type 'none' is silence, 'direct' passes channel i to channel i unchanged (when no high-pass is configured), 'random' has the configured length, 'ism' is the room simulation, and the reported path information names the type actually used; choices for one pair never affect another pair, whatever the order in which arrays, paths and types are added.",
 ["configurations","programs"],"all assignments of path kinds to pairs of up to 2x2 arrays, all orders of set-up calls, all default types",
 "Tests set at most one type per set-up and never check the other pairs.",
 [A,S,"room/roomimpulseresponse.py"],[("set_default_path_type/setup_ir",A),("PathGenerator.create_path","room/roomimpulseresponse.py")])
p("C11","Simulators created from the same set-up are isolated from each other",
 "Each simulator behaves exactly as if it were the only one ever created from the set-up as it was at the moment of creation: creating or running other simulators, or changing the set-up's configuration, paths, path types or sources afterwards, changes none of its results, and running a simulator never changes the set-up.",
 ["schedules","programs","histories"],"all interleavings of create, run and modify operations up to a bound, with static and moving arrays and different configurations",
 "One test runs two simulators one after the other and nothing is changed in between.",
 [S,A,"room/roomimpulseresponse.py"],[("SimulatorSetup.create_simulator",S),("PathGenerator.calc_rir_parameters","room/roomimpulseresponse.py")])
p("C12","A saved session is reused exactly when it fits, and reuse changes nothing",
 "With automatic saving and loading on, a simulation obtained by loading a saved session is indistinguishable (paths, sources, update behaviour, metadata, results) from one generated from scratch with the current configuration and arrays. A saved session is never used when a parameter or array property (positions, directivities, path types, explicit paths) that influences the impulse responses differs, and is always used when none differs.",
 ["histories","configurations"],"all sequences of saves and loads over a set of configuration and array variants",
 "No test uses sessions at all.",
 ["saveloadsession.py","configutil.py",A,S],[("load_session/search_for_matching_session","saveloadsession.py"),("equal_audio","configutil.py"),("prototype_equals",A)])
p("C13","An interrupted session save never damages later simulations",
 "If the program is interrupted at any point while a session or result folder is being written, leaving any prefix of the files or a truncated file, every later simulation using the same folders still completes, gives the same results as without the leftovers, and sessions saved before stay usable.",
 ["crash_points","histories"],"every point in the sequence of file-system operations of a save and every truncation of the file being written",
 "No test uses sessions or injects crashes.",["saveloadsession.py",A,"configutil.py"],[("save_session/search_for_matching_session","saveloadsession.py")])
p("C14","Configuration and metadata files describe the simulation and read back equal",
 "Every configuration accepted by a set-up can be written to and read back from the result folder with all values equal, and the position, array, path and processor metadata written for a simulation agree with the arrays, channel counts, source descriptions, propagation types and processors it really uses.",
 ["configurations","inputs"],"every configuration field over its value kinds (including tuples and array-library scalars), and all array and source kinds",
 "No test reads a written file back.",["configutil.py",A,"saveloadsession.py",S],[("SimulatorInfo.save_to_file/load_from_file","configutil.py"),("ArrayCollection.save_metadata",A),("write_processor_metadata","saveloadsession.py")])
p("C15","Generated folder names are fresh and file lookups are exact",
 "A generated result folder name never exists already, whatever folders are present, and several names generated together are distinct and fresh. Looking up the highest-numbered file, the earlier files of a series or the index at the end of a name returns exactly the files matching the given prefix, suffix and index and never one belonging to a different series.",
 ["histories","inputs"],"all subsets of a directory listing built from colliding names, and all short names over a small alphabet",
 "No test touches the file utilities beyond reading one index.",["fileutilities.py"],[("get_unique_folder_name","fileutilities.py"),("find_all_earlier_files","fileutilities.py")])
p("C16","A source's stream does not depend on how it is requested in blocks",
 "For every source kind, channel count and parameter, requesting N samples in any sequence of block lengths yields, concatenated, exactly the same (channels x N) signal as requesting them at once or as a fresh identically seeded source yields, and using one source instance never affects another.",
 ["programs","inputs"],"all compositions of N into block lengths, for every source kind and several channel counts",
 "Tests cut one single-channel stream per source into equal blocks.",["signal/sources.py","utilities.py"],[("get_samples of each source","signal/sources.py"),("calc_block_sizes","utilities.py")])
p("C17","Each source produces the signal its definition promises",
 "A repeated sequence is periodic, a zero-ended one plays once and is silent afterwards, and a raising one plays every sample before it raises, all scaled by the amplification factor; pulse trains, sinusoids, counters, maximum-length and Gold sequences follow their closed-form definition (period, delay, start state, frequency, amplitude and power per channel); noise sources scale with the requested power, also after it is changed.",
 ["inputs","programs"],"all small sequence lengths, end modes, factors, pulse parameters, register orders and start states, powers and channel counts",
 "Tests cover pulse trains and the repeat mode only; tests for other sources check block splitting, not values.",
 ["signal/sources.py"],[("get_samples of each source","signal/sources.py")])
p("C18","Trajectories pass through their points with the promised timing",
 "A linear trajectory starts at the first point, visits the points in order along straight segments, returns to the start after exactly one period and repeats; in constant-speed mode the speed is the same everywhere and in constant-time mode every segment takes the same time. A circular trajectory keeps its radius between the inner and outer radius around its centre with the promised periods and start angle, a combination of trajectories is the stack of its parts in order, and evaluating or plotting a trajectory never changes it.",
 ["inputs"],"all point lists over a small grid, periods, sample rates and modes, evaluated at every sample of several periods",
 "No test checks trajectory positions against an independent definition.",["room/trajectory.py"],[("pos_func","room/trajectory.py")])
p("C19","Moving arrays are simulated with the position of the current sample",
 "With moving sources or microphones, the microphone sample at time t is the time-varying convolution using the impulse responses for the positions at time t (at the last position update not later than t when positions are updated less often), for moving sources, moving microphones and both together. Pairs in which nothing moves, and pairs with a non-room propagation type, keep exactly their static path, and a trajectory that does not move gives the static result.",
 ["histories","configurations"],"all combinations of static and moving arrays, update intervals, buffer and block lengths and start modes",
 "The suite's own test documents a one-sample lag and fails; the passing test compares two moving cases with each other.",
 [S,A,"room/roomimpulseresponse.py"],[("ArrayCollection.update",A),("Propagator.propagate",S)])
p("C20","Regions contain exactly their points",
 "For every region shape, a point is reported inside exactly when it satisfies the geometric definition, point by point and independently of the other points in the query; grid points and random samples lie inside, have the requested number, spacing and symmetry about the centre, and the reported volume is the geometric one. A combined region contains a point exactly when one of its parts does, its grid is the parts' grids, it rejects overlapping parts, and its samples fall in each part in proportion to the part's volume.",
 ["inputs","configurations"],"all shapes over small parameter sets, all query points on a grid containing boundaries, and all small combinations",
 "Tests check that generated points pass the region's own membership function, so both can be wrong together; combined regions are untested.",
 ["room/region.py"],[("is_in_region/equally_spaced_points/sample_points","room/region.py")])
p("C21","Point generators return the promised layout",
 "Coordinate transforms are inverse to each other; every point generator returns exactly the requested number of points with the promised shape and height, evenly spaced along circles and rectangle perimeters (with offset, start angle and alternating outward shift applied as specified) or filling the disc, rectangle or cuboid within its limits.",
 ["inputs"],"all point counts up to a bound, side lengths, offsets, angles and circle or rectangle counts",
 "One test draws one rectangle without asserting positions.",["room/generatepoints.py"],[("generators","room/generatepoints.py")])
p("C22","Room impulse responses match the room, whatever is computed together",
 "The impulse response between a source and a microphone in a room depends only on their positions relative to the room, the room parameters and the sample rate: it equals what the underlying image-source library gives for that pair alone, and is the same whatever other sources and microphones are in the arrays, in which order, in how many groups they are computed, and where the room is centred. It is truncated or zero-padded to the configured length, delayed only by the configured extra delay, high-pass filtered only when configured, and depends on the configured speed of sound. A directional microphone in a room is refused rather than treated as omnidirectional.",
 ["inputs","configurations"],"all ordered subsets of positions on a small grid, microphone counts around the batching limit, room centres, lengths, delays and reverberation times",
 "Tests compare two positions for being different and one convolution.",["room/roomimpulseresponse.py"],[("ir_room_image_source_3d","room/roomimpulseresponse.py"),("PathGenerator","room/roomimpulseresponse.py")])
p("C23","Phase and event counters follow their definition",
 "A phase counter is in each phase for exactly its number of samples, in order, skipping empty phases, staying in an infinite phase forever and in no phase after the last finite one, and flags exactly the first sample of each phase. An event counter reports at every index exactly the events whose period and offset match, including events added later.",
 ["programs","histories"],"all phase-length tuples and event definitions over small values, stepped past the end",
 "No test touches the counters.",["counter.py"],[("PhaseCounter","counter.py"),("EventCounter","counter.py")])
p("C24","Block partition helpers cover the range exactly once and align as promised",
 "Splitting a number of samples into blocks returns positive lengths that sum to it and end exactly at every block or buffer boundary; fixed-size block iteration yields adjacent blocks that end exactly at the requested index, start no earlier than allowed and leave out less than one block.",
 ["inputs"],"all argument combinations up to a bound",
 "Random tests cover one helper; the others are untested.",["utilities.py","processor.py"],[("calc_block_sizes","utilities.py"),("calc_block_sizes_with_buffer/block_process_until_index","processor.py")])
p("C25","Sound field images put every value at its position",
 "Sorting a rectangular grid of points for display yields rows of constant y and columns of constant x, places each value exactly at its own position (image rows from highest to lowest y), and gives the same result for every input order of the points; the pixel counts and plot extents match the grid.",
 ["inputs"],"all permutations of small grids, real and complex values with one or more components",
 "No test covers it.",["diagnostics/soundfieldplot.py"],[("sort_for_imshow","diagnostics/soundfieldplot.py")])
p("C26","Frequency responses equal the Fourier transform of the paths",
 "For every pair the frequency response has one bin for each real frequency, and each value equals the Fourier sum of that source-microphone impulse response, zero-padded or truncated to the requested length; the reported frequencies match the bins.",
 ["inputs","configurations"],"all small transform lengths, path lengths and array sizes",
 "No test covers it.",[A],[("get_freq_paths",A)])
p("C27","Power, ratio and summary diagnostics equal their definition on the whole run",
 "Derived diagnostics (signal power, smoothed power ratio, state power, state comparison and summary, eigenvalues, signal summary, power spectrum, sound field power) report exactly the value obtained by applying their definition to the complete recorded signal or state, independent of how the run was cut into blocks, buffers and intervals, and work the same with or without a processor where no processor state is involved.",
 ["configurations","histories"],"all block, chunk and buffer lengths, intervals, channel selections and smoothing lengths",
 "No test covers any of these diagnostics.",[DD,"diagnostics/diagnosticscollection.py","diagnostics/diagnosticsummary.py","diagnostics/preprocessing.py"],
 [("save/get_output of each diagnostic",DD)])
p("C28","Audio files are loaded faithfully and exported audio is the recorded signal",
 "Loading an audio file returns (channels x samples) with the file's values, restricted to the first requested channels and resampled to the requested rate channel by channel, for mono and multichannel files. Exported audio has one channel per signal channel, the simulation sample rate and the recorded samples scaled to full scale with only the documented fade at both ends.",
 ["inputs","configurations"],"all channel counts, requested channels and rate ratios up to a bound",
 "No test loads or exports audio.",["signal/sources.py",PL],[("load_audio_file","signal/sources.py"),("create_audio_files",PL)])
p("C29","Arrays keep their channels, groups and sources consistent",
 "An array has one channel per position, in the order given, whether positions are one array, groups or a region; groups list exactly their own channels; a source array accepts only a source with a matching channel count and then plays and describes exactly that source; a collection rejects duplicate names and paths that do not fit, and iterates every source-microphone pair exactly once.",
 ["programs","inputs"],"all orders of adding arrays, group splits, region combinations and source replacements up to a bound",
 "No test covers groups, replacing sources or rejected input.",[A,S],[("Array.__init__/add_array/set_source",A)])
p("C30","The cardioid microphone is a linear, time-invariant, per-channel system",
 "The cardioid output is the sum of one fixed filter applied to the main and one to the secondary signal: linear, time-invariant, independent per microphone and of the number of samples, with the declared delay compensated, and the two filters realise the designed response (cancelling a wave from behind and passing one from the front).",
 ["inputs"],"all impulse positions and channel selections for small filter orders",
 "Tests compare two random plane waves per run at one filter order.",["room/directional.py"],[("differential_cardioid_microphone","room/directional.py")])
p("C31","Signals that a processor creates behave like all other signals",
 "A signal that a processor creates, of any number of dimensions, is available under its name during preparation and at every call, as long as the other signals and zero where nothing was written. Whatever the processor writes to it - before time 0 in its preparation, in the block that was just shown, in older history or in the block ahead - is found unchanged at that time at every later moment at which that time is visible, whatever the buffer and chunk lengths; recordings of such a signal hold the values written ahead for each time, and other signals are not affected.",
 ["histories","configurations"],"all combinations of write schedules, dimensions, block, buffer and chunk lengths",
 "No test creates a signal in a processor.",[S,"processor.py"],[("Signals.create_signal/_reset_signals",S),("Simulator._prepare_simulation",S)],[("processor.sig","the processor's view of the signals","processor.py")])
p("C32","A simulation is determined by its set-up and its seeds",
 "Every source, region, point generator and set-up that is given a random generator draws its numbers only from it: equal generators give equal results and different ones different results, unaffected by the global random state, by other components created or used before or in between and by other simulations, and the global random state is not consumed (impulse responses of type random and of the randomised image-source method are the exception: they come from numpy's global generator). A complete simulation repeated with equal seeds gives identical paths, recordings, processor view and output files whatever happens in the process around it. Regions made without a generator are not copies of each other.",
 ["histories","schedules"],"all interleavings of two components' operations and all placements of disturbances of the random state",
 "Tests run each random component once, alone.",["signal/sources.py","room/region.py","room/generatepoints.py",S],
 [("get_samples of each source","signal/sources.py"),("sample_points of each region","room/region.py"),("equiangular_circle","room/generatepoints.py"),("SimulatorSetup rng",S)])
p("C33","The picture of a set-up shows every array, region and the room at its place",
 "Creating a simulator with a figure folder and format writes exactly one picture of the set-up (array_pos) in the result folder, and nothing is drawn when no folder or format is chosen. In it every array appears once under its name: microphones and sources at their positions, a region with the outline of each of its parts, a moving array along the corners or positions it passes within the run. The outline of the room, centred at the configured room centre with the configured size, is shown exactly when some pair is simulated in the room.",
 ["histories","configurations"],"all sequences of array kinds, propagation types, rooms and run lengths",
 "No test looks at the picture.",[A,"room/region.py","room/trajectory.py"],[("ArrayCollection.plot",A),("Array.plot/RegionArray.plot",A),("plot of each region","room/region.py"),("plot of each trajectory","room/trajectory.py")])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
