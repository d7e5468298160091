"""Writes properties.jsonl (kept as code so that statements stay short and consistent)."""
import json
from pathlib import Path

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


I, H, C, S, X, F = 'inputs', 'histories', 'configurations', 'schedules', 'crash_points', 'fault_sequences'
A = 'acoular/'

p('C01', 'The requested block size never changes a stream',
  'Every time-domain and spectral block generator delivers the same rows whatever block size is requested: the concatenated blocks agree up to rounding for every block size from one row to more than the whole stream. No delivered block is empty, and every block except the last has exactly the requested number of rows. (Methods defined per block are excluded: the spherical-harmonic source, the time-domain CLEAN beamformers, clipping in sector integration, and file writers.)',
  [I, C], 'all generators and chains of generators, all parameter settings, all block sizes >= 1, all stream lengths incl. not divisible by the block size',
  'the regression tests use one or two block sizes on one stream; remainders, block size 1 and blocks longer than the stream are not sampled for most generators',
  [A + 'tprocess.py', A + 'process.py', A + 'fprocess.py', A + 'sources.py', A + 'tbeamform.py'],
  [('per-block loops with carried filter state / indices / buffers', 'result() of every generator')], ['blocks yielded by result(num)'])
p('C02', 'Reading results is repeatable and leaves all inputs unchanged',
  'Iterating a generator again, after complete or abandoned iterations or interleaved with another iterator of a different object, yields the same values. Producing results never modifies the arrays, signals, source objects or settings the user supplied, nor any identity string (digest) of upstream objects.',
  [H, I], 'all generators and chains, all interleavings of complete, abandoned and repeated iterations',
  'tests read each result once; in-place modification of a shared upstream block only shows in a second use of the same source',
  [A + 'tprocess.py', A + 'sources.py', A + 'process.py', A + 'spectra.py', A + 'fbeamform.py', A + 'tbeamform.py'],
  [('block processing works on copies', 'result() of generators that combine or scale blocks')], ['result(num)', 'signal()', 'digest'])
p('C03', 'Declared stream metadata equals what is delivered',
  'For every generator with a known length, the declared number of samples, number of channels, sampling frequency and (for spectra) number of frequencies, frequency axis and block size equal those of the rows it actually delivers, and follow changes of its source and settings. An unknown length (-1) at the source stays unknown through every processing block that keeps or rescales the length, and the data of such a source are processed completely, as are those of a source that ends earlier than announced.',
  [I, C, H], 'all generators and chains, all settings, all source lengths, before and after reconfiguration',
  'tests read metadata on one configuration; rounding and masking edge cases and re-reads after a change are not sampled',
  [A + 'base.py', A + 'tprocess.py', A + 'process.py', A + 'fprocess.py', A + 'sources.py', A + 'tbeamform.py'],
  [('delegated and computed shape traits', 'num_samples / num_channels / freqs of every generator')], ['num_samples', 'num_channels', 'sample_freq', 'freqs', 'result(num)'])
p('C04', 'A sample splitter hands every block to every consumer exactly once',
  'When several registered consumers read concurrently from a sample splitter, each of them receives every block of the source exactly once, unmodified and in source order, for every thread schedule, number of consumers and buffer size. A consumer lagging behind its own buffer bound triggers exactly its configured reaction: an error raised, a warning given, or silent dropping of its oldest blocks; consumers within bounds are never affected by dropping, and the data of the source stay unchanged.',
  [S, C, H], 'all interleavings of up to several consumer threads with arbitrary pauses, buffer bounds global, per consumer and at registration, all overflow treatments, register/remove between runs',
  'the tests use a few threads that advance in lock-step through one path; races between fetch and distribution need injected delays',
  [A + 'process.py'], [('per-consumer deque filled under one lock', 'SampleSplitter.result'), ('bound check before distributing', 'SampleSplitter._inspect_buffer_levels')],
  ['blocks received by each consumer thread'], [('block_buffer', 'pending blocks per consumer', 'SampleSplitter')])
p('C05', 'The result cache block is transparent',
  'A cache block delivers exactly the values, data type and block layout its source would deliver, for every caching mode, file backend and block size, on first, repeated and later runs in other objects or processes, and after earlier runs were abandoned or failed at any block. Results stored for one configuration are never delivered for another; in read-only mode the files are not written, in overwrite mode the stored result is renewed, and with caching off no file is created or read.',
  [H, X, C], 'all sequences of runs (complete, abandoned after k blocks, source raising at block k), modes all/individual/readonly/overwrite/none, both file backends, differing block sizes between runs',
  'tests cover a few mode switches with one block size; crash points between appended blocks and differing block sizes between the aborted and the next run are not covered',
  [A + 'process.py', A + 'h5cache.py', A + 'h5files.py', A + 'configuration.py'],
  [('completeness flag on the stored node', 'Cache._write_data_to_cache'), ('incomplete node handling', 'Cache._get_data_from_incomplete_cache')],
  ['Cache.result', 'contents of config.cache_dir'], [('complete', 'attribute of the stored array', 'cache file node')])
p('C06', 'Different settings never share an identity string',
  'Two objects of the same class whose settings or data differ in a way that changes their results have different identity strings (digest), however small or deeply nested the difference and whatever the size of the data. Equal settings give equal identity strings in every process and on every run, so that stored results are found again.',
  [I, C], 'every class with a digest, every documented setting, data arrays of any size incl. differences only in one element or beyond printing precision, fresh processes with different hash seeds',
  'tests check that digests of a few objects change for a few traits; arrays longer than a thousand entries and nested objects are not compared',
  [A + 'internal.py', A + 'sources.py', A + 'tprocess.py', A + 'fbeamform.py', A + 'tbeamform.py', A + 'grids.py', A + 'microphones.py', A + 'spectra.py', A + 'environments.py', A + 'trajectory.py'],
  [('hash over the declared dependencies', 'internal.digest'), ('lists of dependencies', 'digest = Property(depends_on=[...]) of every class')], ['digest'])
p('C07', 'Results always reflect the current settings',
  'After any sequence of assignments to an object or to any object it depends on, every derived value and result equals that of a freshly built object with the same final settings. Restoring earlier settings restores the earlier results, whether or not intermediate results were read.',
  [H, C], 'all histories of assignments and reads over chains source-spectra-steering-beamformer, grids, microphones, environments, filters, signals',
  'tests set traits once before reading; a stale cached value only shows for a particular order of reads and assignments',
  [A + 'spectra.py', A + 'fbeamform.py', A + 'tbeamform.py', A + 'tprocess.py', A + 'sources.py', A + 'grids.py', A + 'microphones.py', A + 'environments.py', A + 'trajectory.py', A + 'signals.py'],
  [('cached properties invalidated through depends_on', 'all lazily computed traits')], ['public properties and result()'])
p('C08', 'Stored matrices and maps are only reused when they are right',
  'With caching enabled, cross-spectral matrices, eigenvalues, eigenvectors, beamforming maps and point spread functions equal what is computed without caching, on every later run, in any order of requested frequencies, in every caching mode, for both file backends and after a computation was interrupted or a mode was switched between runs.',
  [H, X, C], 'histories of requests over spectra/beamformer/PSF objects sharing a cache directory, with faults injected during computation, across object lifetimes and processes',
  'the caching tests need example data that is not in the checkout and do not cover partial maps, interruption and mode switches',
  [A + 'spectra.py', A + 'fbeamform.py', A + 'h5cache.py', A + 'h5files.py'],
  [('per-frequency flags next to the stored map', 'BeamformerBase._get_filecache/result'), ('stored csm/eva/eve nodes', 'PowerSpectra._get_filecache')],
  ['csm', 'eva', 'eve', 'result/synthetic', 'psf'])
p('C09', 'The cache file manager always makes progress and shares handles',
  'Requests for cache files from any number of objects and threads always return: each object gets an open file for exactly its own base name, objects with equal base names share one handle, no handle still used by an object is closed, and handles no longer used are closed. A failed open leaves the manager usable.',
  [S, H, F], 'all histories of requests, releases, cache directory changes and failing opens, from one and several threads',
  'tests only touch the manager through single objects in one thread',
  [A + 'h5cache.py', A + 'h5files.py', A + 'configuration.py'], [('reference counts per file', 'HDF5Cache')], ['get_cache_file', 'obj.h5f', 'open_file_reference'])
p('C10', 'The cross-spectral matrix equals its definition',
  'The cross-spectral matrix of a signal equals the normalised average over all blocks (with the chosen window, block size, overlap and precision) of the outer products of the windowed block spectra; it is Hermitian, positive semi-definite, scales with the square of the signal and permutes with the channels. Frequency axis, number of snapshots, index ranges and the imported-matrix variant agree with the same definition.',
  [I, C], 'all signals, lengths, channel counts, windows, overlaps, block sizes, precisions, frequency ranges',
  'regression snapshots pin one configuration of one file that is not in the checkout',
  [A + 'spectra.py', A + 'fastFuncs.py'], [('accumulation kernel', 'fastFuncs.calcCSM'), ('windowing, overlap and normalisation', 'PowerSpectra.calc_csm')], ['csm', 'fftfreq()', 'indices', 'freq_range'])
p('C11', 'Eigenvalues and eigenvectors decompose the cross-spectral matrix',
  'For every frequency the provided eigenvalues are real, ascending, and together with orthonormal eigenvectors reproduce the cross-spectral matrix; synthetic eigenvalue spectra over frequency bands are the corresponding sums.',
  [I, C], 'all matrices incl. rank-deficient ones, all frequency selections', 'no test checks the decomposition itself',
  [A + 'spectra.py'], [('calc_ev / synthetic_ev', 'PowerSpectra')], ['eva', 'eve', 'synthetic_ev'])
p('C12', 'Spectral processing matches the discrete Fourier transform',
  'Block spectra equal the windowed discrete Fourier transform of the corresponding signal section with the documented scaling; inverting unwindowed, unscaled spectra restores the signal, while incomplete spectra are refused; auto- and cross-power spectra equal the scaled squared magnitudes and products of the spectra they are fed with, in all layouts, scalings and precisions; averaging them reproduces the cross-spectral matrix.',
  [I, C], 'all signals, block sizes, overlaps, windows, scalings, precisions, numbers of snapshots per block',
  'tests check a single sine and full-length reconstructions only',
  [A + 'fprocess.py', A + 'spectra.py'], [('RFFT/IRFFT/AutoPowerSpectra/CrossPowerSpectra', 'fprocess.py'), ('overlapping block extraction', 'BaseSpectra._get_source_data')], ['result(num)'])
p('C13', 'Filters act on the whole stream as one linear time-invariant filter',
  'Octave, third-octave, zero-phase octave, exponential-averaging, frequency-weighting and filter-bank blocks produce exactly the output of their documented filter applied to the complete signal at once, independently per channel, starting from rest; band filters pass their band centre with unit gain, reject bands out of range, and filter banks deliver each band as the single band filter would.',
  [I, C], 'all signals, bands, fractions, orders, weightings, sampling rates, block sizes',
  'snapshot tests pin one band and one block size', [A + 'tprocess.py'], [('filter state carried over blocks', 'Filter.result, FilterBank.result')], ['result(num)', 'sos'])
p('C14', 'Averages, powers, cumulative averages and reversal are exact',
  'Block averaging delivers the mean of each complete group of consecutive rows in order; the power block delivers squares; the cumulative average delivers at each row the mean of all rows so far; reversal delivers the rows of the source in reverse order, each exactly once.',
  [I, C], 'all streams, lengths, group sizes and block sizes', 'tests use one stream and compare to snapshots',
  [A + 'process.py', A + 'tprocess.py'], [('Average, TimePower, TimeCumAverage, TimeReverse', 'process.py, tprocess.py')], ['result(num)'])
p('C15', 'Block convolution equals direct convolution',
  'Convolving a stream with one kernel for all channels or one kernel per channel delivers the full linear convolution of length signal+kernel-1 for every relation between block size, signal length and kernel length; convolving sources do so with the source signal at every microphone.',
  [I, C], 'all signals, kernels (1-D, one column, one per channel), lengths and block sizes', 'tests use short kernels with one block size',
  [A + 'tprocess.py', A + 'sources.py'], [('partitioned overlap-save', 'TimeConvolve.result')], ['result(num)'])
p('C16', 'Channel selection, sample ranges, mixing and calibration are exact',
  'Masked sources and masking blocks deliver exactly the rows start..stop and the channels not declared invalid, in order; calibration multiplies each channel by its own factor (before or after masking); channel mixing and signal mixing deliver the weighted sums. Invalid combinations (empty range, incompatible factors or sources) raise an error instead of delivering data.',
  [I, C], 'all start/stop incl. negative and beyond the end, all channel subsets, weights and factors, block sizes',
  'tests mask one file that is not in the checkout', [A + 'tprocess.py', A + 'sources.py', A + 'calib.py'],
  [('buffered masking', 'MaskedTimeOut.result'), ('calibration factors', 'Calib.result, TimeSamples.result')], ['result(num)'])
p('C17', 'Files written can be read back unchanged',
  'Time data written to an HDF5 file is read back with the same values (to the chosen precision), shape, sampling frequency and metadata, whether saved at once or written while streaming, with either file backend, for all block sizes and write limits; streaming passes its data on unchanged. WAV export writes the selected channels, scaled to a common factor, sample by sample with the right header.',
  [I, C, H], 'all signals, lengths, precisions, metadata, block sizes, write limits, backends, channel lists', 'tests write one source and check few values',
  [A + 'tprocess.py', A + 'sources.py', A + 'h5files.py'], [('WriteH5.save/result, WriteWAV.save, TimeSamples load', 'tprocess.py, sources.py, h5files.py')], ['file contents', 'TimeSamples attributes'])
p('C18', 'Rotation tracking and array interpolation follow their definition',
  'Trigger detection finds exactly the samples where a pulse train crosses the threshold, merging multiple crossings as configured; the tracked rotation angle and speed follow the pulse train; interpolation to a rotated ring array reproduces the field: a virtual microphone that coincides with a real one gets its signal, and constant rotation by a whole number of microphone spacings permutes the channels.',
  [I, C], 'all pulse trains, thresholds of both signs, rotation directions, ring and planar arrays, interpolation methods', 'tests snapshot one configuration',
  [A + 'tprocess.py'], [('Trigger, AngleTracker, SpatialInterpolator*', 'tprocess.py')], ['trigger_data', 'angle', 'rpm', 'result(num)'])
p('C19', 'Stationary sources deliver the delayed and attenuated signal',
  'At every microphone a stationary point source delivers its signal delayed by the propagation time (rounded to the upsampled grid) and divided by the distance, for every position, environment, start time and padding mode; the dipole is the scaled difference of two such monopoles, the line source the sum of its monopoles with their strengths (incoherent ones with mutually different noise), the spherical harmonic of order zero a monopole, and uncorrelated noise differs per channel and repeats per seed.',
  [I, C], 'all source and microphone positions, signals, start times, upsampling factors, paddings, block sizes', 'tests snapshot one position and compare a few loops',
  [A + 'sources.py', A + 'signals.py'], [('delay and divide kernel', '_fill_mic_signal_block and result() of sources')], ['result(num)'])
p('C20', 'Moving sources satisfy the emission-time equation',
  'Each sample a moving source delivers at a microphone is the signal value at the emission time that solves emission time + distance/c = reception time along the trajectory, divided by the distance (times the documented convective amplification when enabled); a source moving on a constant trajectory delivers what the stationary source delivers.',
  [I, C], 'all subsonic trajectories, signals, microphone positions, start times, block sizes', 'tests snapshot one trajectory',
  [A + 'sources.py', A + 'trajectory.py'], [('Newton iteration for the emission time', 'MovingPointSource.result and relatives')], ['result(num)'])
p('C21', 'Mixing sources is weighted superposition',
  'Mixers deliver, row by row, the (weighted) sum of all their inputs for every number of inputs and block size, without changing any input; inputs that do not match in sampling frequency, channels or length are rejected; adding or removing inputs is reflected at once.',
  [I, C, H], 'all lists of inputs, weights and block sizes, histories of list changes', 'tests mix two sources once',
  [A + 'tprocess.py', A + 'sources.py'], [('SourceMixer, Mixer', 'sources.py, tprocess.py')], ['result(num)'])
p('C22', 'Generated signals match their parameters exactly',
  'Every signal generator delivers the declared number of samples; sine values follow amplitude, frequency and phase; noise repeats for equal seeds, differs for different seeds, is scaled by the rms value and has the nominal level and spectrum; filtered noise equals the filter applied to the white noise; file-driven signals repeat, loop or zero-pad the first source channel; upsampling keeps the original samples of the signal grid.',
  [I, C], 'all lengths, rates, seeds, amplitudes, filter coefficients, upsampling factors', 'tests check few lengths and seeds',
  [A + 'signals.py'], [('signal() and usignal()', 'signals.py')], ['signal()', 'usignal(factor)'])
p('C23', 'Beamforming maps equal their mathematical definition',
  'For every array, grid, environment, steering-vector type, frequency and setting, the conventional, Capon, eigenvalue and functional beamformers and the base variant deliver per frequency the documented quadratic form of the steering vectors with the (diagonal-removed) cross-spectral matrix or its inverse or eigen-decomposition, negative values clipped as documented; a single source at a grid point gives its power there.',
  [I, C], 'all arrays, grids, CSMs (random Hermitian PSD, synthetic source), steering types 1-4 and custom, r_diag and normalisation settings, precisions', 'all beamforming regression tests fail for missing example data in this checkout',
  [A + 'fbeamform.py', A + 'fastFuncs.py'], [('quadratic-form kernels', 'fastFuncs.beamformerFreq, fbeamform.py')], ['result[i]', 'synthetic'])
p('C24', 'Steering vectors follow the four documented formulations',
  'Transfer functions are distance ratio times propagation phase; the steering vectors of the four formulations equal their formulas for every index set, reference distance or reference point and environment; types scale so that a unit source is reproduced in amplitude or location as documented.',
  [I, C], 'all arrays, grids, frequencies, references, index subsets', 'tests compare against one stored set',
  [A + 'fbeamform.py', A + 'fastFuncs.py'], [('calcTransfer, calcSteer_Formulation*', 'fastFuncs.py')], ['transfer', 'steer_vector', 'r0', 'rm'])
p('C25', 'Point spread functions are the maps of unit sources',
  'Each column of the point spread function for a grid point equals the conventional beamforming map of a unit source at that point, for every requested subset and order of grid points, every calculation mode, precision and steering type, without diagonal removal; combining earlier stored columns gives the same.',
  [I, C, H], 'all arrays, grids, index subsets requested in any order, calculation modes, precisions', 'tests compare the modes for one grid',
  [A + 'fbeamform.py', A + 'fastFuncs.py'], [('calcPointSpreadFunction, column store', 'PointSpreadFunction')], ['psf'])
p('C26', 'Deconvolution methods keep their defining invariants',
  'Deconvolution results are finite maps on the grid and never negative for the methods that fit powers. DAMAS performs Gauss-Seidel steps on the point-spread system with non-negativity (zero iterations give the dirty map) and its NNLS variant solves that system optimally; CLEAN subtracts damped point spread functions at the maximum until the residual stops shrinking, is exhausted or the limit is reached; CLEAN-SC subtracts damped coherent components with the documented stop rule; orthogonal deconvolution puts each eigenvalue divided by the number of microphones at the maximum of the map of its component; CMF and SODIX reduce the documented misfit under non-negativity; GIB follows its documented regularised iteration. A single noise-free source on a grid point is recovered at its position by CLEAN, CLEAN-SC, orthogonal deconvolution and CMF.',
  [I, C], 'random arrays, grids, source configurations, settings and iteration limits', 'all these tests need missing example data',
  [A + 'fbeamform.py', A + 'fastFuncs.py'], [('per-algorithm loops', 'fbeamform.py'), ('damasSolverGaussSeidel', 'fastFuncs.py')], ['synthetic', 'result[i]'])
p('C27', 'Map access, band synthesis and sector integration are consistent',
  'Frequency maps computed lazily in any order equal those computed at once; a synthesised band is the sum of the maps of exactly the frequency lines inside it (lower limit included, upper excluded); a single frequency delivers its own line, one between two lines the next higher line with a warning naming it, one above the last line zeros; integration over a sector is the sum over exactly its grid points, for points, circles, rectangles, polygons, sector objects and frequency ranges; levels are ten times the decimal logarithm with the documented floor.',
  [I, H, C], 'all request orders, band numbers, frequencies, sectors and grids', 'needs missing example data; only few bands and sectors',
  [A + 'fbeamform.py', A + 'grids.py'], [('lazy per-frequency computation', 'BeamformerBase.result'), ('synthetic/integrate', 'fbeamform.py')], ['result', 'synthetic(f, num)', 'integrate(sector)', 'L_p'])
p('C28', 'Time-domain beamforming is delay and sum at every sample',
  'The time-domain beamformer delivers at every grid point and sample the weighted, level-corrected sum of the linearly interpolated delayed microphone signals; the squared variants deliver its square with or without removal of the auto terms; the CLEAN-type variant subtracts the component of the maximum; variants for moving grids use for every sample the distances of the moved (and rotated) grid.',
  [I, C], 'all arrays, grids, signals, weightings, diagonal settings, block sizes, trajectories', 'snapshots for one configuration',
  [A + 'tbeamform.py', A + 'tfastfuncs.py'], [('_delayandsum* kernels', 'tfastfuncs.py'), ('buffering', 'tbeamform.py')], ['result(num)'])
p('C29', 'Propagation distances and apparent positions are physical',
  'Without flow the propagation distance is the Euclidean distance for all point sets; in uniform flow it is the speed of sound times the travel time through that flow, equal to the Euclidean distance at rest, smaller downstream and larger upstream; unset microphone positions mean the distance to the origin.',
  [I, C], 'all point sets, Mach numbers below one, flow directions', 'tests use one geometry',
  [A + 'environments.py'], [('_r, dist_mat', 'environments.py')], ['Environment._r / apparent_r'])
p('C30', 'Ray tracing through flow fields gives correct travel times',
  'For every flow field, distances through the general flow environment equal the speed of sound times the travel time of the sound ray: they agree with the closed form for uniform flow and rest, with direct integration for jets, do not depend on earlier uses or unrelated grid points, and flow fields return velocity and exact derivatives.',
  [I, C, H], 'flow fields (rest, uniform, slot jet, open jet, rotating), positions, point sets, repeated use with changed fields', 'one snapshot per flow field',
  [A + 'environments.py'], [('ray bundle and interpolation', 'GeneralFlowEnvironment')], ['GeneralFlowEnvironment._r', 'v()'])
p('C31', 'Grids enumerate their points consistently',
  'For every regular, line, imported and merged grid the number of points, shape, positions, index of a location, extent and increment describe the same points: position i of an index reproduces its coordinates, index of a position returns it, increments equal the spacing, out-of-range locations are rejected, and importing an XML geometry gives exactly the positions and subgrid names written in it.',
  [I, C, H], 'all extents, increments, sizes incl. single rows, after any change of the settings', 'tests check sizes for few grids',
  [A + 'grids.py'], [('gpos/index/shape', 'Grid subclasses')], ['pos', 'size', 'shape', 'index', 'indices', 'extend()'])
p('C32', 'Sectors select exactly the points inside them',
  'Rectangular, cuboid, circular, polygonal and convex sectors and combinations select exactly the grid points inside (with the documented treatment of boundary and tolerance), fall back to the nearest point when configured and otherwise select none, and subgrids keep exactly the selected positions.',
  [I, C], 'all sector shapes, sizes, positions inside, outside and on the boundary, grids of all kinds', 'few sectors on one grid',
  [A + 'grids.py'], [('contains', 'Sector subclasses'), ('subdomain, indices', 'Grid')], ['contains', 'subdomain', 'indices'])
p('C33', 'Microphone geometries keep positions, selection and files in step',
  'Valid positions are all positions without the declared invalid channels in order; number, centre and aperture belong to exactly those; import of a geometry file gives the positions written in it and export followed by import restores them.',
  [I, C, H], 'all geometries, invalid channel lists (incl. out of range and repeated), histories of changes, files', 'one file is read',
  [A + 'microphones.py'], [('mpos/total selection', 'MicGeom')], ['mpos', 'num_mics', 'center', 'aperture', 'export_mpos'])
p('C34', 'Trajectories interpolate their points smoothly and repeatably',
  'A trajectory passes exactly through its given points at their times, its derivatives agree with the positions, the interval is the range of the given times, and iterating it yields positions at equal time steps from start (inclusive) to end (exclusive).',
  [I, C, H], 'all point sets with any number of points, scalar and array times, start/end/step settings, changes of points', 'one trajectory is tested',
  [A + 'trajectory.py'], [('spline through the points', 'Trajectory.location/traj')], ['location', 'traj', 'interval'])
p('C35', 'Numerical kernels stay in bounds and are deterministic',
  'For all valid inputs the compiled numerical kernels never read or write outside their arrays, give the same result as their interpreted source, and give the same result for every number of threads and on every repetition.',
  [I, S, C], 'all kernels, shapes incl. size one and odd sizes, non-contiguous inputs, thread counts', 'compiled code runs without bounds checks and with one thread count in tests',
  [A + 'fastFuncs.py', A + 'tfastfuncs.py', A + 'sources.py', A + 'tprocess.py'], [('numba kernels', 'fastFuncs.py, tfastfuncs.py')], ['kernel outputs under bounds checking and varying thread counts'])
p('C36', 'Helper functions and error metrics satisfy their definitions',
  'Level, frequency-grouping, band-integration, signal and geometry helpers and the source-map metrics return what their documentation defines for all inputs, treat zero levels and empty selections as documented, and leave their inputs unchanged.',
  [I, C], 'all arrays, bands, sectors, targets and maps', 'few examples are tested',
  [A + 'tools/helpers.py', A + 'tools/metrics.py', A + 'tools/utils.py', A + 'fbeamform.py'], [('helpers', 'tools/'), ('MetricEvaluator', 'tools/metrics.py'), ('L_p, integrate', 'fbeamform.py')], ['return values'])
p('C37', 'Deprecated names and configuration switches stay faithful',
  'Every renamed attribute can still be read and set under its old name, acting on the same value with a deprecation warning, and read-only old names stay read-only; configuration values are validated, the chosen file backend is the one used, directories are created on request, and caching modes take effect for all objects at once.',
  [C, H], 'all deprecated names of all classes, all configuration switches and values, all orders', 'some names are tested for existence',
  [A + 'deprecation.py', A + 'configuration.py', A + 'h5files.py'], [('deprecated_alias', 'deprecation.py'), ('Config', 'configuration.py')], ['old attribute names', 'config traits'])
p('C38', 'Recording from a sound device delivers every captured frame once',
  'Recording through the sound device block yields exactly the frames the device delivers, in order, for the chosen number of channels and in the chosen precision, with blocks of the requested size; a limited recording stops after exactly the requested number of samples, an unlimited one when collecting is switched off; the overflow flag is that of the block just delivered; the stream is closed and the recording no longer marked as running when it ends, is abandoned or fails; channel number and default sampling frequency respect the chosen device.',
  [F, C, I], 'simulated devices with arbitrary chunk contents and overflow flags, block sizes, sample limits', 'no device exists in the test environment',
  [A + 'sdinput.py'], [('SoundDeviceSamplesGenerator.result', 'sdinput.py')], ['result(num)'])
p('C39', 'Benchmark file import maps file contents without loss',
  'Reading benchmark files delivers exactly the stored time data, tacho data, sampling frequency, metadata, cross-spectral matrices (real part plus sign times i times imaginary part), frequencies and microphone positions with their documented conventions, also after the file of a reader has been changed; different files or contents have different identity strings; reading leaves the file unchanged.',
  [I, H], 'synthetic benchmark files of all sizes, single and double precision, changes of files', 'one time data file is tested',
  [A + 'aiaa/aiaa.py'], [('TimeSamplesAIAABenchmark, CsmAIAABenchmark, MicAIAABenchmark, TriggerAIAABenchmark', 'aiaa/aiaa.py')], ['data', 'csm', 'mpos'])
p('C40', 'The sample buffer re-blocks a stream without loss',
  'Re-blocking through the sample buffer delivers windows of the configured length advancing by the configured step over the unmodified source stream, covering every source row in order exactly as often as length and step imply, for every combination of source block, window, step and buffer length, including the remainder at the end.',
  [I, C], 'all stream lengths, source block sizes, window lengths, steps and buffer lengths', 'few combinations are tested',
  [A + 'process.py'], [('shift buffer', 'SamplesBuffer')], ['result(num)'])

if __name__ == '__main__':
    out = Path(__file__).resolve().parent.parent / 'properties.jsonl'
    out.write_text(''.join(json.dumps(x) + '\n' for x in P))
    print(len(P), 'properties')
    for x in P:
        assert len(x['title']) <= 80, x['id']
