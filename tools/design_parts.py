"""Hand-written parts of DESIGN.md (put together by mkdesign.py)."""

HEAD = '''# Runtime monitoring of acoular

This file says, for every property in `properties.jsonl`, how runtime monitoring decides it, against which oracle,
within which bounds and at what cost; which defects of acoular were found; which alarms were false and what was done
about them; and which planted bugs the checks catch.  The per-property sections are written by `tools/mkdesign.py` from
the checks themselves (workload rule, monitors with case counts, assumptions) and from `tools/design_parts.py`
(oracle and reach), so that they cannot drift from the code.

## 1. Technique

Every check runs the **real, compiled code of `/repo/acoular`** (imported from the working tree, numba kernels compiled
from it) under generated workloads and lets a monitor judge each execution.  There is no model of acoular that is
checked instead of the code; models exist only on the oracle side.  Kinds of monitors used:

* **online checkers** stepping a small specification model along with the code (sample splitter queue model, cache file
  manager reference counts, bookkeeping models of microphone selections, sectors, grids, recording sessions);
* **offline checkers over event logs** (exactly-once/order of blocks per consumer thread, blocks and rows per reader,
  which kernel calls and source reads a caching history caused, which files were created or written);
* **independent definitions** evaluated beside the code (direct DFT and cross spectra, quadratic forms of beamformers,
  Gauss-Seidel sweeps, delay-and-sum loops, emission time by bisection, rays integrated by an own ODE solver, winding
  numbers, own band filters, own Voss noise, own parsers of WAV/HDF5/XML files, …), written from the documented
  formulas and not from the implementation;
* **differential and metamorphic monitors**: live object against an object built afresh with the same settings (C07),
  one block size against another (C01), cached against uncached (C05, C08), compiled against interpreted, bounds
  checked and differently threaded kernels (C35), relabelled/rotated/scaled inputs (C10, C23, C29, C33);
* **sanitizers**: the kernels of `fastFuncs`, `tfastfuncs`, `sources` and `tprocess` are numba-compiled Python, so the compiler
  sanitizers of gcc/clang cannot instrument them.  Their counterparts here are numba's own bounds-check
  instrumentation, an interpreter for the same source (`NUMBA_DISABLE_JIT`) that makes undefined behaviour defined, a
  preloaded allocator (`lib/fence.c`, compiled by the check) that puts every array between inaccessible pages and fills
  fresh memory with a pattern (electric-fence and MSan style: out-of-bounds accesses fault, uninitialised reads change
  results), and runs with 1, 2, 3 and 8 threads compared value by value (race detection by outcome).

**Reach** comes from workload diversity: a case is drawn from a seeded generator (numpy `Generator` keyed by seed, property,
monitor and case number, so that every case replays on its own), lengths concentrate on block boundaries, sizes include
0, 1 and a few far beyond the usual, settings are drawn over all documented values, histories interleave reads, setting changes,
abandoned iterations, injected failures (source, kernel call n, file opening), delays and thread switches (1 µs switch interval
plus seeded sleeps), other processes, and both HDF5 back ends.

**Evidence** (`evidence/<id>.json`) counts, per monitor, cases run, assertions evaluated by the oracle, events observed
and *distinct non-trivial* signatures (the dimensions named in the workload rule).  Each monitor has a floor: fewer
distinct signatures than the floor make the run inconclusive (exit 3) and never a pass.

### Harness

`run.py ID` (stdlib only) hashes the source tree, prepares one compiled-function cache per tree (compiled by a single process,
because numba's cache is not safe for several), starts 8 shard workers with private copies, each with its own scratch directory
as HOME, TMPDIR and cwd, merges their records, applies `known_findings.json`, writes evidence and a replay file per violation
(`run.py ID --replay FILE` re-runs just that case).  A worker that dies or hangs in a case reports this case.  Files,
caches and processes of a check live in its scratch directory only; `/repo` is only read.  Verdicts: 0 held / 1 VIOLATION /
2 harness error / 3 inconclusive.  Exceptions are judged like wrong values: an exception raised inside acoular for a valid case is a
violation (mechanism `exception:Type@file:function`), one inside the harness is a harness error.

Level claimed for all properties: **exploration** — held on every execution observed.  No hooks are needed in `/repo`: the
monitors observe public behaviour, wrap library entry points inside their own process (for example the compiled kernels to count or fail
calls in C08, the HDF5 opening function in C09) and use fakes where hardware is missing (C38).
'''

ORACLE = {
    'C01': ('Concatenated rows for 4 block sizes of the same chain must agree; all blocks but the last have the requested length, none is empty. Chains of all 35 generator classes, plus streams of ten thousand rows read in blocks of thousands.', 'Tests read each class with one block size; state carried across blocks (filters, overlap, delay lines) only fails at particular remainders.'),
    'C02': ('Snapshots of every array, trait and digest reachable from the object before and after complete, abandoned and interleaved reads; bitwise equality of repeated reads; blocks kept by the consumer must still be right when the producer goes on.', 'Aliasing defects need a second reader or a kept block, which no test has.'),
    'C03': ('num_samples, num_channels, sample_freq (and freqs) are compared with the rows really delivered, before and after every change of the source or the settings.', 'Declared lengths are used for allocation downstream; tests check a few constants.'),
    'C04': ('A queue model predicts what every consumer gets for single-threaded schedules with all buffer treatments; for threads, recorded logs (consumer, block content, order) are checked for exactly-once and order, plus a deadlock limit.', 'Interleavings: threads with 1 µs switch interval and seeded delays in source and consumers produce hundreds of distinct interleavings per run; tests have one.'),
    'C05': ('Histories over one cache directory: every delivered block equals the uncached source bit for bit, no file is created or written in modes that forbid it, incomplete runs never count as complete.', 'Crash points (abandon, source failure at block k), mode changes, shared base names and second processes need sequences.'),
    'C06': ('Two objects whose observable results differ must have different identity strings; equal settings must have equal ones, also in another process with another hash seed and after pickling/cloning.', 'Quantifies over pairs of configurations of 90 classes with nested sources; changes as small as one array element or 1e-9.'),
    'C07': ('A live object after random assignments anywhere in its graph (also in-place edits of lists and dicts, shared sub-objects, retargeting kept objects to other data) must equal a fresh object with the same settings.', 'Stale caches depend on which value was read before which assignment: histories.'),
    'C08': ('Every value delivered in a caching history (modes, failures in the n-th kernel call, other process, kept objects, several readers) is compared with the uncached computation; forbidden file changes by checksums; spoiled files must be renewed by overwrite.', 'Partial storage after a failure at a particular point is invisible to tests.'),
    'C09': ('Histories of requests against the cache file manager, single and multi-threaded with slow and failing opens: each request returns in time, equal paths share one handle, a handle in use stays open, unused ones are closed, no busy flag survives a failure.', 'Progress and sharing are properties of schedules and fault points.'),
    'C10': ('Direct evaluation of the averaged outer products in numpy; scaling and permutation relations; frequency axis and index limits.', 'All reference data of the tests are missing; lengths relative to block and overlap matter.'),
    'C11': ('Reconstruction, orthonormality and ordering residuals for ordinary, repeated, zero and widely spread eigenvalues, cached or not.', 'Degenerate spectra never occur in tests.'),
    'C12': ('numpy FFT of the right sections with own windows and scalings, single/double sided, triangular layouts, inverse transform.', 'Quantifies over windows × overlaps × remainders.'),
    'C13': ('Own filter design (Butterworth of matched noise bandwidth, IEC 61672 weightings) applied to the complete signal at once; zero-phase filters run forward and backward; linearity, time invariance and channel independence.', 'Block boundaries, orders and band edges.'),
    'C14': ('Group means, squares, running means and reversal computed from the complete stream.', 'Remainders, unknown lengths, groups longer than blocks.'),
    'C15': ('numpy.convolve per channel for every relation of signal, kernel and block length; interleaved readers; invalid kernels.', 'Partition boundaries (kernel = k·block ± 1, result exactly filling a block).'),
    'C16': ('Python slicing semantics for ranges, masks with duplicates, orders and out-of-range entries, weights of all shapes, calibration factors and files; invalid combinations must raise.', 'Edges of ranges and masks.'),
    'C17': ('Files are read back with the other back end, a plain h5py/PyTables reader or an own RIFF parser and compared sample by sample, including abandoned and failing writers and metadata.', 'Crash points and back-end pairs.'),
    'C18': ('Own peak search, angle interpolation and ring/plane/volume interpolation; rotation by whole microphone spacings is a permutation; virtual microphones inside the array stay within the range of the field.', 'Pulse clusters, drift, block boundaries, dimension × method.'),
    'C19': ('Own delay and distance per sample on the upsampled signal, prepadding modes, convolution sources, harmonics, dipoles, lines, uncorrelated noise.', 'Index arithmetic at start, loop and end.'),
    'C20': ('Emission time by bisection on an own spline of the trajectory, amplitude with and without convective factor; defects pinned by snapshots are separate known findings with the as-is behaviour checked instead.', 'Root finding for curved, fast and receding motion.'),
    'C21': ('Sum of separately collected inputs with weights; ends, list edits, shared inputs, rejected combinations.', 'End regimes and aliasing.'),
    'C22': ('Own implementations of all generators, sample by sample; statistics over many seeds.', 'Every length/seed/filter instead of one RMS test.'),
    'C23': ('Quadratic forms, powers, inverse and subspace formulas evaluated in double precision from own distances.', 'The tests lack data; matrices of all ranks and settings.'),
    'C24': ('The four formulas with own distances.', 'All reference kinds, environments and index forms.'),
    'C25': ('Unit-source maps from formulas and from the conventional beamformer; index subsets and storage modes in sequence.', 'Orders and repeats of requested columns.'),
    'C26': ('Own Gauss-Seidel, CLEAN, CLEAN-SC, orthogonal deconvolution, Suzuki/IRLS iterations; KKT conditions for NNLS-type fits; misfit decrease for CMF and SODIX; recovery of single sources.', 'All tests of this part need missing data.'),
    'C27': ('Sums over single lines of a fresh object; band limits; sector sums; several storage modes; request orders.', 'Lazy evaluation order.'),
    'C28': ('Plain loops over microphones at every output sample with own interpolation; several block sizes; CLEAN-T per block.', 'Delay tables against block boundaries.'),
    'C29': ('Closed form and the moving-wavefront equation itself.', 'All geometries including coincidences.'),
    'C30': ('Closed forms for rest, uniform flow and rigid rotation; rays shot from receiver to point with an own integrator; finite differences for velocity gradients; fresh against reused interpolators.', 'Fields × regions × histories.'),
    'C31': ('The lattice described by the limits; index/locations inverse of each other; change histories.', 'Divisibility and degenerate sizes.'),
    'C32': ('Winding numbers, half planes and distances; lattices with points exactly on borders.', 'Border and emptiness rules.'),
    'C33': ('Bookkeeping model of positions and masks; XML files written, read back and parsed independently.', 'Histories and extreme geometries.'),
    'C34': ('Own splines (not-a-knot cubic etc.), derivatives, iteration and edits in place.', 'Point numbers, offsets and edits.'),
    'C35': ('Same workloads in compiled, interpreted, bounds-checked, guard-page and differently threaded processes; outcomes must agree and nothing may fault.', 'Memory and races cannot be seen by value tests.'),
    'C36': ('Direct sums and formulas for levels, bands, metrics, geometry and air properties.', 'Empty, zero, negative and equal inputs.'),
    'C37': ('Table of old and new names of every class: reads and writes through either name must agree; switches accept exactly the documented values; caching modes observed through source consumption and files.', 'Exhaustive over all names, sequences of switches.'),
    'C38': ('A fake sounddevice library hands out known blocks, overflows and failures.', 'Endings, failures and repeats; no hardware here.'),
    'C39': ('Files of the benchmark layout written with h5py, all values compared; kept readers after a change of file.', 'Precisions, attribute types, histories.'),
    'C40': ('Row bookkeeping of the window positions for every relation of source block, window, step and buffer length.', 'Re-blocking arithmetic.'),
}
LIMITS = {
    'C04': 'Thread schedules are sampled, not enumerated; the evidence counts distinct interleavings.',
    'C09': 'Thread schedules are sampled; a file in use read-only may be refused for writers with a warning (documented behaviour of HDF5).',
    'C30': 'Interpolated distances are bounded (−0.06…0.65 R·Om/N), not equal; points reached by several rays are skipped. The direct ray comparison for sheared flows checks both the implemented equation and the true one (finding).',
    'C26': 'LassoLars, BIC and OMPCV results come from scikit-learn: range, sign and recovery only.',
    'C28': 'CLEAN-T decisions closer than 1e-6 to a tie are not judged.',
    'C38': 'The driver and PortAudio are outside (no device, no library here).',
    'C35': 'Out-of-bounds reads inside one allocation that stay inside the dimension are invisible to guard pages; the bounds-checked variant covers wrong dimensions. ThreadSanitizer cannot instrument numba code (compiled by LLVM inside the process without the pass): races are detected by differing outcomes with 1, 2, 3 and 8 threads and by repetition.',
}
FALSE = '''
## 4. False alarms met, and what was done

Every alarm on the unchanged tree was traced to acoular (then repaired or listed) or to the check.  Corrections on the checking side:

* C01/C03: time-domain beamformers end when the data for the delayed rows end; the declared length of these classes is a finding (C03), not a block-size effect.
* C06: pairs whose fingerprints agree within one rounding (e.g. coherent line sources of 2 monopoles mirrored) may share results but not identities, so only "different result ⇒ different identity" is judged in that direction.
* C07: in-place edits of arrays are not observable by traits (documented), so only assignments and list/dict edits are drawn; a BeamformerGIB 'positive' fit depends on the arbitrary phase of eigenvectors and is compared by power.
* C08: reference reads of a Capon map at lines with a singular matrix are skipped; overwriting must renew only entries a gridless map really computes; eigenvectors are compared by what they stand for.
* C13: weighting curves compared at bilinearly warped frequencies.
* C15: "convolving sources" means the complete convolution at every microphone.
* C18: virtual or real microphones on the hull of a 3-D triangulation may fall outside by rounding (filled with zeros); regular 3-D layers may be refused by Qhull; both are left out.
* C19: a constant offset of 0.105 samples of the spherical harmonic source is admitted; index rounding ties may go either way.
* C20: positions nearer to a tie than the documented iteration tolerance may take either sample.
* C21: the stream mixer ends with its shortest input; only SourceMixer rejects unequal declared lengths.
* C25: calcmode 'readonly' refuses only when a cache file exists.
* C26: tolerances of ill-conditioned fits follow the condition number; ambiguous maxima end the comparison.
* C28: CLEAN-T is compared per delivered block; non-monotonic reception is skipped.
* C30: the overestimate by interpolation between rays was bounded from observation (0.42) with margin (0.65); enlarged region.
* C32: points nearer to a border than rounding are not judged, unless exactly on it.
* C34: `traj(start=0, …)` is documented as unset; derivative orders up to the spline order.
* C35: CLEAN-SC selections may differ after reordering of sums; compared by total power.
* C36: barspectrum may include one band below its lowest complete band.
* C39: MicAIAABenchmark on a foreign file only logs (traits), so it is excluded.
'''
