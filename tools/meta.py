"""Titles, statements, anchors and check descriptions of all properties."""

NOTES = (
    'Every check is one command of the deterministic simulator in /verif/dst: ./check.sh ID [quick|thorough]. '
    './check.sh ID --replay FILE re-executes a replay file, ./check.sh ID quick --selftest N compares digests of '
    'the same seeds across interpreters. No hooks in /repo were needed: all seams are constructor arguments, '
    'config attributes, module attributes and the threading/time/file modules as imported by acoular.'
)
HOOKS = dict(guard='none', enable='no hooks: the checks import acoular from /repo as it is', source_commits=[])

LN = ('Seeded search over {x}; every failure is replayable. Covers only the sampled executions; trusts numpy, scipy, '
      'numba, h5py/PyTables and the simulator.')


def A(files, mechanism, state=(), observe=()):
    return dict(
        files=['acoular/' + f for f in files],
        mechanism=[dict(name=n, where=w) for n, w in mechanism],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        observe_at=list(observe), hook_needed=None,
    )


def Q(over, text):
    return dict(over=over.split(), text=text)


PROPS = []


def P(id, title, statement, q, why, anchors, technique='', x='', na=None, off=False):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=q, why_tests_cant=why, anchors=anchors,
                      technique=technique, level_note=LN.format(x=x), na=na, off=off))


P('C01', 'Stream results do not depend on the block size',
  'The concatenated output of every chain of generators and streaming processing blocks is the same whatever number of '
  'samples per block it is pulled with. Every block but the last has exactly the requested number of samples, none is empty, '
  'every block has the announced number of channels, and the total length is the announced number of samples '
  '(time-domain beamformers deliver fewer samples, by the propagation time). '
  'Only operations documented to work per block are exempt.',
  Q('inputs programs schedules', 'every processing graph, every recording, every block size and every sequence of pulls'),
  'The tests run each block with one or two fixed block sizes that divide the signal length; remainders, blocks '
  'shorter than delays, kernels or overlaps and combinations of stages are not reached.',
  A(['base.py', 'sources.py', 'tprocess.py', 'process.py', 'sdinput.py', 'tbeamform.py', 'tools/utils.py'],
    [('per-pass generator state carried across blocks', 'every result(num) generator'),
     ('SamplesBuffer re-blocking', 'process.py SamplesBuffer')],
    [('filter/delay/overlap state', 'what a block must carry into the next', 'tprocess.py, sources.py')],
    ['blocks yielded by result(num)', 'num_samples, num_channels, sample_freq']),
  'deterministic simulation: seeded processing graphs pulled under two different block schedules and compared', 'graphs, data and pull schedules')

P('C02', 'Consumers, passes and callers of a stream do not disturb each other',
  'What a stream delivers never depends on other consumers or passes over the same objects: independent passes that are '
  'pulled interleaved, repeated, or abandoned half-way deliver what a single undisturbed pass delivers. '
  'No processing step modifies the data of its source, so recordings kept in memory and the original arrays stay unchanged.',
  Q('programs schedules histories', 'every graph with shared parts, every order of pulls of its consumers, every point of abandonment'),
  'Tests pull one consumer once from start to end, so shared buffers, modified inputs and left-over state of an abandoned pass go unnoticed.',
  A(['base.py', 'sources.py', 'tprocess.py', 'process.py', 'tools/utils.py'],
    [('each call of result() creates independent generator state', 'every result(num) generator'),
     ('copies before in-place operations', 'process.py, tprocess.py')],
    observe=['blocks yielded by interleaved passes', 'source arrays before and after']),
  'deterministic simulation: seeded interleaving, repetition and abandonment of passes over shared graphs', 'graphs, pull orders and abandonment points')

P('C03', 'A sample splitter delivers the whole stream to every consumer',
  'Every object registered at a sample splitter receives every block of the source exactly once, in order and unmixed, '
  'in whatever order and from whatever threads the objects read, as long as no buffer overflows. '
  'All of them end after the last block, a failing source raises an error for every one of them, and nobody waits forever.',
  Q('schedules fault_sequences inputs', 'every interleaving of the consuming threads (preemption inside the splitter), every number of consumers, block size and source failure point'),
  'The tests run real threads on one schedule per run, mostly with blocks that take long; a lost or doubled block needs a particular preemption.',
  A(['process.py'],
    [('lock around fetching and distributing a block', 'process.py SampleSplitter.result/_fill_block_buffers'),
     ('per-consumer deque', 'process.py SampleSplitter.block_buffer'),
     ('LockedGenerator', 'process.py LockedGenerator')],
    [('block_buffer', 'blocks waiting per consumer', 'process.py'), ('_source_generator_exist', 'a pass is running', 'process.py')],
    ['blocks received per consumer']),
  'deterministic simulation: seeded thread scheduler (opcode preemption) + exact delivery oracle + source faults', 'thread interleavings, consumer counts and source faults')

P('C04', 'Splitter overflow policies act per consumer, and recovery is complete',
  'When a consumer falls behind by more than its own buffer size its own policy applies: an error, a warning with the oldest '
  'blocks dropped, or silent dropping; consumers that keep up lose nothing and no data is lost without the announced reaction. '
  'After an overflow, an abandoned pass or a changed registration the next complete pass delivers everything again.',
  Q('schedules fault_sequences configurations', 'every combination of buffer sizes and policies, every order of pulls, stalls, abandonments and registration changes'),
  'The tests check one overflowing consumer per policy with equal buffer sizes.',
  A(['process.py'],
    [('overflow test per consumer before a further block is distributed', 'process.py SampleSplitter._assert_obj_registered/_fill_block_buffers'),
     ('register/remove objects', 'process.py SampleSplitter.register_object, remove_object')],
    [('buffer_size, buffer_overflow_treatment', 'per consumer limits and policies', 'process.py')],
    ['blocks, warnings and errors seen by each consumer']),
  'deterministic simulation: stalled consumers against a reference model of bounded queues', 'pull orders, stalls, policies and recovery actions')

P('C05', 'Cached time data equals the recomputed stream, whatever happened before',
  'A stream read through the disk cache is sample for sample the stream its source delivers, in every global caching mode, '
  'with every block size and both HDF5 libraries, whether it comes from the source, from a cache written earlier, or partly from '
  'an incomplete cache. This stays true after abandoned passes, process crashes at any point, failing or torn writes and '
  'interleaved or concurrent readers; caching modes that do not allow writing leave the cache files unchanged.',
  Q('histories fault_sequences crash_points schedules', 'every history of passes, abandonments, mode changes, crashes and I/O errors, and every block size'),
  'The tests write one complete cache and read it back in the same process; partial caches, crashes during append and '
  'mode changes between processes are never produced.',
  A(['process.py', 'h5cache.py', 'h5files.py', 'configuration.py'],
    [('completeness attribute written after the last block', 'process.py Cache._create_filecache/_pass_data/_get_data_from_cache'),
     ('incomplete cache handling', 'process.py Cache._get_data_from_incomplete_cache'),
     ('caching modes', 'configuration.py Config.global_caching')],
    [('cache_complete', 'node holds the whole stream', 'process.py Cache, node attribute')],
    ['blocks delivered by Cache.result', 'contents of the cache directory']),
  'deterministic simulation: forked processes with crashes, torn writes and I/O errors at seeded storage operations, stream oracle',
  'histories of processes, passes, modes, faults and crash points')

P('C06', 'Cached spectra, maps and point spread functions are never stale or partial',
  'Cross spectral matrices, eigenvalues, eigenvectors, beamforming maps and point spread functions that are answered from '
  'the cache equal those computed without caching, in every caching mode and with both HDF5 libraries. A process that '
  'dies or gets an I/O error while results are calculated and stored never causes a later process to return '
  'partial or doubled results or to fail; only missing entries are computed again; modes none and readonly write nothing.',
  Q('histories fault_sequences crash_points', 'every sequence of requests by several processes, every crash or failing storage operation between them'),
  'The tests compute with caching switched off or with a fresh cache and never interrupt a calculation.',
  A(['fbeamform.py', 'spectra.py', 'h5cache.py', 'h5files.py'],
    [('per-frequency flags set after the result', 'fbeamform.py BeamformerBase._calc, LazyBfResult'),
     ('per-grid-point flags', 'fbeamform.py PointSpreadFunction.calc_psf'),
     ('complete attribute', 'spectra.py PowerSpectra._get_filecache')],
    [('freqs/gridpts', 'which entries of a cached array are valid', 'fbeamform.py')],
    ['arrays returned to the caller', 'contents of the cache directory']),
  'deterministic simulation: process crashes, torn writes and disk errors during caching, uncached oracle',
  'histories of requests, processes, faults and crash points')

P('C07', 'After any history of edits results equal those of freshly built objects',
  'Objects never answer with results of an earlier configuration: after any sequence of attribute changes, on the object '
  'itself or on any object it uses (sources, environments, grids, microphones, steering vectors, spectra, beamformers), '
  'interleaved with reading results, every result equals that of a newly built object with the same '
  'final configuration. Objects with different configurations never share a cache entry, and identical configurations have identical digests.',
  Q('histories configurations', 'every class, every sequence of edits and reads, with and without the disk cache'),
  'The digest tests change each trait once on isolated objects; stale values need a read before the edit, and an edit of a nested object or of a trait missing in the digest.',
  A(['internal.py', 'environments.py', 'grids.py', 'microphones.py', 'spectra.py', 'fbeamform.py', 'tbeamform.py', 'sources.py', 'tprocess.py', 'process.py', 'base.py'],
    [('digest over the traits listed in depends_on', 'internal.py digest, digest properties of every class'),
     ('cached_property/property_depends_on invalidation', 'all modules')],
    [('digest', 'identifies the configuration, key of every cache', 'internal.py')],
    ['results and digests of the edited and of the fresh object']),
  'deterministic simulation: seeded histories of edits and reads against freshly built objects as reference model',
  'classes, edit histories and cache configurations')

P('C08', 'Cache files are shared safely and released when nobody uses them',
  'All objects of a process that use one cache file share one open handle; a file in use by any living object is never '
  'closed, and it is closed once no object uses it any more; the cache directories reported as used include those of all files in use. Creating, using, switching and dropping objects in any order, '
  'also from several threads and with failing file operations in between, neither loses data, nor deadlocks, nor '
  'raises errors about closed or already opened files.',
  Q('histories schedules fault_sequences', 'every order of creation, use, garbage collection, errors and mode changes; every thread interleaving'),
  'The tests use one object per cache file and let the interpreter exit close it.',
  A(['h5cache.py', 'h5files.py', 'process.py', 'spectra.py', 'fbeamform.py'],
    [('reference search before closing', 'h5cache.py HDF5Cache.close_unreferenced_cachefiles/is_reference_existent'),
     ('lock around handle management', 'h5cache.py HDF5Cache.get_cache_file')],
    [('openFilesReference', 'open handles by file name', 'h5cache.py')],
    ['open files', 'results of every object', 'errors']),
  'deterministic simulation: seeded object life cycles, thread schedules and file faults against a handle model',
  'object life cycles, thread interleavings and file faults')

P('C09', 'Recordings survive saving and reading back exactly',
  'What is written to an HDF5 recording is read back by TimeSamples exactly: every sample, the channel order, the sampling frequency, the '
  'metadata and the requested precision, with both HDF5 libraries, any block size and number of samples to write. '
  'Writing passes every block on unchanged. If writing is stopped, abandoned or fails, the file is '
  'closed, readable and holds exactly the blocks written so far, and no recording is overwritten by an automatically named one.',
  Q('inputs histories fault_sequences crash_points', 'every signal and block size, every stop, abandonment, error point and clock behaviour'),
  'The tests write one short signal and check that the file exists; stops, errors and repeated automatic names are not simulated.',
  A(['tprocess.py', 'sources.py', 'h5files.py', 'process.py'],
    [('append block by block', 'tprocess.py WriteH5.result/save'),
     ('write_flag and num_samples_write', 'tprocess.py WriteH5'),
     ('reading blocks', 'sources.py TimeSamples.result')],
    [('write_flag', 'whether blocks are written', 'tprocess.py WriteH5')],
    ['samples read back', 'blocks passed on', 'file system']),
  'deterministic simulation: seeded stops, I/O errors, crashes and clocks while recording, read back by the real reader',
  'signals, stops, faults and clock readings')

P('C10', 'WAV export writes the selected channels in order and normalised',
  'A WAV file written from any stream holds all samples of exactly the selected channels in the selected order, scaled by the '
  'common maximum magnitude to the full range without clipping or wrap-around, with the rounded sampling '
  'frequency, whatever the signal (also silence).',
  Q('inputs histories fault_sequences', 'every signal, channel selection, sample rate and failing write'),
  'The tests write one signal and do not read the file back.',
  A(['tprocess.py'], [('two passes: maximum, then scaled samples', 'tprocess.py WriteWAV.save')],
    observe=['frames, channels and rate of the written file']),
  'deterministic simulation: seeded signals, clocks and write errors; independent WAV parser as oracle', 'signals, channel selections and faults')

P('C11', 'Sound card recording delivers every block once and reports overflows',
  'Recording from a sound device yields exactly the frames the device delivered, each once and in order, in blocks of the '
  'requested size with the configured number of channels and samples, sets the overflow flag if the device lost data, '
  'and releases the device whenever the recording ends: completed, stopped by the user, abandoned or failed.',
  Q('schedules fault_sequences inputs', 'every device behaviour (overflow, errors at open or read, short reads) and every stopping point'),
  'No test can run this class because no sound device is present.',
  A(['sdinput.py'], [('stream as context manager', 'sdinput.py SoundDeviceSamplesGenerator.result')],
    [('collectsamples, overflow, stream_started', 'user controls and state', 'sdinput.py')],
    ['blocks yielded', 'device calls']),
  'deterministic simulation: simulated sound device with seeded overflows, errors and stops', 'device behaviours and stopping points')

P('C12', 'Results are reproducible: same inputs, same outputs, in every run',
  'The output of every source, processing chain, spectrum and beamformer is a function of its configuration only: seeded noise and all other outputs '
  'are bit-identical over repeated passes, fresh objects, processes, hash seeds, memory contents '
  'and orders of evaluation, and independent of other objects living or created in the same process. Two generators with the same seed agree, and with different seeds differ.',
  Q('schedules configurations histories', 'every configuration, process environment (hash seed, uninitialised memory contents) and order of use'),
  'A test compares with one value in one process; dependence on uninitialised memory, hash order or leftover state shows only in other environments.',
  A(['sources.py', 'signals.py', 'tprocess.py', 'spectra.py', 'fbeamform.py', 'tbeamform.py', 'trajectory.py', 'fastFuncs.py', 'tfastfuncs.py'],
    [('local random generators with seeds', 'signals.py RandomState(seed), sources.py'),
     ('initialised result arrays', 'all modules')],
    observe=['outputs of twin executions']),
  'deterministic simulation: twin executions with different memory contents, hash seeds, evaluation order and interleaving', 'configurations and twin environments')

P('C13', 'Parallel kernels give the same result for every thread schedule',
  'Every compiled numerical kernel computes the same values however many threads execute it, in whatever order its parallel '
  'iterations run, and whatever memory its result arrays held before; no iteration reads or writes '
  'elements another iteration writes.',
  Q('schedules inputs', 'every number of threads, every order of parallel iterations, every input shape'),
  'The tests run on one thread count; a race on a shared accumulator gives the right value most of the time.',
  A(['fastFuncs.py', 'tfastfuncs.py', 'fbeamform.py', 'spectra.py', 'tbeamform.py'],
    [('prange loops over independent outputs', 'fastFuncs.py'), ('guvectorize with disjoint outputs', 'fastFuncs.py, tfastfuncs.py')],
    observe=['kernel outputs']),
  'deterministic simulation: kernels executed under a seeded scheduler of parallel iterations and race detector, compared with sequential and compiled runs', 'thread counts, iteration orders and inputs')

P('C14', 'Maps do not depend on which frequencies are requested, or in what order',
  'A beamforming map at a frequency is the same whether it is requested alone, in a range, first, repeatedly or after others, through '
  'result, synthetic or integrate, and synthetic is the sum of the single frequency results inside the requested '
  'band. An exception during one calculation or invalid settings leave no partial values: the next request gives the complete result.',
  Q('histories schedules fault_sequences', 'every beamformer class, every sequence of requests and of failing calculations'),
  'The tests request one frequency or band per object.',
  A(['fbeamform.py'],
    [('lazy evaluation with flags per frequency', 'fbeamform.py LazyBfResult.__getitem__, BeamformerBase._calc'),
     ('band selection', 'fbeamform.py BeamformerBase.synthetic')],
    [('_fr', 'frequency already calculated', 'fbeamform.py'), ('_ac', 'results', 'fbeamform.py')],
    ['maps returned']),
  'deterministic simulation: seeded request orders and failing calculations against single-request fresh objects', 'request orders and injected exceptions')

P('C15', 'Time-domain maps equal sample-by-sample delay-and-sum of the whole signal',
  'Every output sample of the time-domain beamformers (stationary, moving and squared variants) equals the value given by delaying and summing the whole recording '
  'with the propagation delays of that sample, independent of block size, buffer position and of how the stream is split, for fixed grids and any trajectory slower than sound, and all of the recording that is long enough is evaluated. '
  'The CLEAN-T variants return for each block what CLEAN gives for the delayed and summed block of the whole recording.',
  Q('inputs schedules', 'every geometry, trajectory, signal length and block size'),
  'The tests compare with stored results of one geometry and one block size.',
  A(['tbeamform.py', 'tfastfuncs.py', 'process.py', 'tools/utils.py', 'trajectory.py'],
    [('sliding buffer with the needed overlap', 'tbeamform.py BeamformerTime.result, process.py SamplesBuffer'),
     ('delays per sample', 'tbeamform.py, tfastfuncs.py')],
    observe=['blocks of the beamformer']),
  'deterministic simulation: seeded geometries and pull schedules against a whole-signal delay-and-sum reference', 'geometries, trajectories, signals and pull schedules')

P('C16', 'Errors of a source reach the user, and a retry works',
  'If a source or a processing step fails in the middle of a stream, the error reaches every consumer instead of a silently shortened '
  'or wrong result; no partial result is kept, open files and threads are released, and repeating the request after the '
  'cause has gone gives the complete result.',
  Q('fault_sequences histories', 'every graph, every failing block and kind of error, every following request'),
  'No test lets a source fail.',
  A(['base.py', 'process.py', 'tprocess.py', 'spectra.py', 'fbeamform.py', 'tbeamform.py', 'sources.py'],
    [('generators propagate exceptions', 'all result() generators'), ('context managers / finally', 'tprocess.py, process.py'),
     ('results stored only when complete', 'spectra.py, fbeamform.py, process.py')],
    observe=['exceptions and results of consumers', 'open files and threads']),
  'deterministic simulation: exceptions injected at seeded points of the stream, then retried', 'graphs, failure points and retries')

P('C17', 'Recording range and channel selection always act exactly as configured',
  'A recording delivers exactly the samples between its start and stop and exactly the channels not declared invalid, in order and calibrated channel by channel, '
  'and num_samples, num_channels and the microphone geometry agree with that selection after any sequence '
  'of changes of file, range, invalid channels and calibration, with both HDF5 libraries and while other passes are running.',
  Q('histories inputs', 'every sequence of changes of range, channels, file and calibration, every block size'),
  'The tests set each attribute once on a small file.',
  A(['sources.py', 'process.py', 'calib.py', 'microphones.py'],
    [('start/stop/invalid channels to indices', 'sources.py MaskedTimeSamples'), ('masking', 'tprocess.py MaskedTimeOut'),
     ('calibration', 'calib.py Calib')],
    [('num_samples, num_channels, channels', 'effective selection', 'sources.py, tprocess.py')],
    ['samples, shapes and attributes']),
  'deterministic simulation: seeded edit and read histories against a list-slicing reference model', 'edit histories and block sizes')

P('C18', 'Streaming estimates equal the whole-signal definition',
  'Spectra, cross spectra, averages, filters, convolutions, level weightings, mixers and reference-signal averages obtained block by block equal '
  'their textbook definition applied to the whole recorded signal, including first and last blocks, overlap, windows, scaling, '
  'remainders and signals shorter than one block.',
  Q('inputs schedules', 'every signal, block size, window, overlap, scaling and pull schedule'),
  'The tests compare with stored values of one configuration or only check that code runs.',
  A(['process.py', 'fprocess.py', 'tprocess.py', 'spectra.py', 'aiaa/aiaa.py'],
    [('block-wise accumulation', 'spectra.py PowerSpectra.calc_csm, process.py Average'),
     ('overlap-save convolution', 'tprocess.py TimeConvolve'), ('recursive filters with state', 'tprocess.py Filter')],
    observe=['blocks and spectra delivered']),
  'deterministic simulation: seeded configurations and pull schedules against whole-signal reference models', 'signals, configurations and pull schedules')

P('C23', 'Simulated sources deliver the delayed and attenuated signal exactly',
  'Every sample a simulated source delivers at a microphone is the emitted signal at its time of emission (the time of reception minus '
  'the travel time from where the source then was), rounded to the upsampled signal, divided by the distance: for stationary and moving '
  'point sources, dipoles and line sources, with any start times, padding, upsampling, flow, trajectory slower than sound, block '
  'size and position in the stream, until the signal ends. Mixtures are the weighted sums of their sources, convolved sources the full '
  'convolution with their kernel, and uncorrelated noise has the configured kind of noise in every channel.',
  Q('inputs histories schedules', 'every geometry, trajectory, signal, edit history, block size and pull schedule'),
  'The tests compare a few samples of one configuration with stored values.',
  A(['sources.py', 'trajectory.py', 'signals.py'],
    [('emission time and interpolation', 'sources.py _fill_mic_signal_block, result of PointSource and derived classes'),
     ('weighted sum until the first source ends', 'sources.py SourceMixer.result')],
    [('index into the upsampled signal', 'advances by one sample per sample', 'sources.py')],
    ['blocks delivered']),
  'deterministic simulation: seeded sources, trajectories, edits and pull schedules against a sample-by-sample definition', 'geometries, trajectories, signals and pull schedules')

P('C19', 'Steering vectors and maps follow the documented formulas',
  'Steering vectors, point spread functions and beamforming maps have the documented formulations and are exact for ideal sources (pure functions of their inputs).',
  Q('inputs', 'all inputs'),
  'The tests sample a few inputs.',
  A(['fbeamform.py'], [('formula', 'fbeamform.py')]),
  na='pure function of its arguments: no schedule, time, I/O, randomness or other party decides the outcome, so a deterministic simulator has nothing to control')

P('C20', 'Geometry, grids, sectors and flow environments compute correct positions',
  'Grid positions, sector membership, microphone geometry measures, propagation distances and ray tracing through flow fields are correct for all inputs.',
  Q('inputs', 'all inputs'),
  'The tests sample a few inputs.',
  A(['grids.py'], [('formula', 'grids.py')]),
  na='pure function of its arguments: no schedule, time, I/O, randomness or other party decides the outcome, so a deterministic simulator has nothing to control')

P('C21', 'Evaluation metrics score source maps as defined',
  'The metric evaluator gives the documented error measures for every set of sectors and maps.',
  Q('inputs', 'all inputs'),
  'The tests sample a few inputs.',
  A(['tools/metrics.py'], [('formula', 'tools/metrics.py')]),
  na='pure function of its arguments: no schedule, time, I/O, randomness or other party decides the outcome, so a deterministic simulator has nothing to control')

P('C22', 'Deprecated names and arguments keep working with a warning',
  'Every deprecated trait, alias and argument warns once and acts as its replacement.',
  Q('inputs', 'all inputs'),
  'The tests sample a few inputs.',
  A(['deprecation.py'], [('formula', 'deprecation.py')]),
  na='pure function of its arguments: no schedule, time, I/O, randomness or other party decides the outcome, so a deterministic simulator has nothing to control')

