"""The hand-written parts of DESIGN.md; mkdesign.py puts them together with
what the checks say about themselves."""

HEAD = '''# Design

What is decided, how, and within which bounds. `properties.jsonl` has the
properties (regenerated by `tools/mkprops.py`), `MANIFEST.json` the commands
(`tools/mkmanifest.py`), this file is put together by `tools/mkdesign.py` from
the checks' own descriptions and `tools/design_text.py`.

## 1. What is checked

stempy reads 4D-STEM acquisitions (streams, sector files of four detector
modules, HDF5, numpy arrays), counts electrons in them, makes images, radial
sums and averages, and has a sparse array type with its own indexing,
reductions, binning, file format and analysis helpers. The properties follow
that structure:

* readers: C01 (sector), C02 (multi-pass random access), C13 (streams),
  C14 (HDF5, arrays, memory layouts);
* counting: C03 (threaded), C04 (exactly once under any schedule), C06
  (thresholds), C07 (iterator readers), C27 (termination);
* images: C08, C10, C11, C12, and C09 for sparse data;
* files: C15, C16, C17, C25, C28;
* sparse arrays: C18, C19, C20, C32; analysis: C21, C22, C23;
* pipelines built on it: C33;
* cross-cutting: C05 (data races), C24 (hostile files), C26 (thread pool),
  C29 (lifetimes, memory safety), C34 (leaks), C35 (inputs are not
  modified), C36 (independence of the history);
* HDF5 layer in C++: C37;
* C30: the MPI build, over stand-ins for the libraries it needs;
* C31 (VTK-m build) is not claimed, see section 7.

## 2. Method: runtime monitoring of the real code

Every check builds /repo's current working tree (out of tree, in
`/verif/.build`, which git ignores) and drives the real extension modules and
the real Python package. The deciding step is always an oracle that observes
executions:

* **online monitors**: the harness keeps a model (of the files, of the history
  of calls, of every array handed out) and judges each delivered block, array
  or exception when it appears. Models are written in plain numpy from the
  documented meaning, never from the code: exact integers for sums, rational
  arithmetic for centres of mass, an explicit DFT matrix for the phase, a
  dictionary for HDF5 contents, an independent parser for names.
* **exactly-once and conservation checkers**: frames carry unique spot sets,
  so that the multiset of event lists at a position says which frames were
  counted, how often and where (C04); tasks of the pool count their runs
  (C26).
* **sanitizers**: AddressSanitizer + UndefinedBehaviorSanitizer (C24, C26,
  C29, C37), ThreadSanitizer (C05, C26). New and freed memory is filled with
  patterns that the inputs never hold, so that uninitialised or stale data that
  reaches a result is seen as well (C24, C29), which ASan alone would not see.
* **schedule perturbation**: `vf/perturb.c` is preloaded and injects seeded
  delays before and after locks, unlocks, condition waits, notifications and
  file reads, and slows some threads down persistently (C04, C05, C08, C10, C26,
  C27). In the TSan build it also reports every use of an open `*.data` file
  (read, seek, close) as a write to a cell of that file, because libstdc++'s
  file streams are not instrumented: two threads using one stream without a
  lock become a reported race, whether or not they collide.
* **fault injection**: failing, short, interrupted and prematurely ending
  reads of the data files (C27), damaged files (C24), address space limits
  (C24, plain phase), failures midway in call histories (C28, C29).

Reach comes from diversity: every case is generated from (seed, index), so
quick (seed 1) is reproducible, and other seeds and the thorough tier explore
further with the same generators and larger counts and sizes.

### The harness

`python -m vf run ID [quick|thorough [SEED]]`: builds the variants the check
needs (`vf/build.py`: plain, asan, tsan, mpi; clang 18, `-O1 -g` for sanitizers),
shards the cases over 8 worker processes (`vf/worker.py`), each in its own
scratch directory, and supervises them: a worker that dies or does not answer
within the time limit of its case is itself a verdict (crash, hang: the case
is run again alone before it is reported, so that a busy machine is not taken
for a hang). A violation is written to `replays/` with the case (the inputs
are regenerated from it) and `python -m vf replay PATH` runs it again.

Verdicts are three-valued: 0 held, 1 violated (one VIOLATION line), 2 the
harness could not decide. A check is *not* held when its coverage requirements
are not met: every check lists the situations that must have been observed
(`REQUIRED`: e.g. "a reset in the middle of a file", "an incomplete frame",
"16 threads", "a partial last block"), they are tagged by the monitor at the
moment it sees them, and a run that misses one ends with 2, so that a check
that silently stopped exercising something cannot pass. The evidence file has
the numbers of cases, of non-trivial distinct executions, of every tag, and of
compared blocks/frames/pixels/schedules.

A changed build that does not compile ends with 2; a library that fails to
import, or crashes in every case, with 1.

### Independence from how the code is written

Checks use the public Python API, and `stempy._io`/`stempy._image` only where
the Python package itself does. Native drivers exist for `ThreadPool.h` (C26)
and the HDF5 layer (C37), and use their public interfaces only. The perturbation hooks
are on libc symbols, not on stempy's functions. No hooks were added to /repo
(`hooks` in MANIFEST.json is empty), so there is no guarded code there.
'''

# property -> (deciding oracle, why this reaches what the tests cannot)
ORACLE = {
'C01': ('Online monitor of the block sequence: set of blocks still due per position, then the partial ones in order, then the end, after every reset again; pixels compared with the model frame.', 'The tests read one fixed acquisition (and need the network); order, splits, gaps, truncation and call histories are what breaks the cache of half-read frames.'),
'C02': ('Model of the map position -> sorted frame numbers -> frame; every answer or refusal is compared.', 'Random access after other accesses, irregular numbering and missing sectors are histories, not single inputs.'),
'C03': ('numpy definition of the local maxima on the raw frames, given the thresholds in the metadata.', 'Borders, plateaus, ties, fractional dark references and row corrections on thousands of frames; tests compare with one stored result.'),
'C04': ('Exactly-once checker on identifiable frames; result independent of schedule by construction of the checker.', 'The counts depend on when the sampling ends relative to the workers; only many perturbed schedules reach those windows.'),
'C05': ('ThreadSanitizer (happens-before, so a race is reported even if its effect did not show) with the file-stream cells described above.', 'No test runs under TSan; unsynchronised accesses nearly never change a result in a test.'),
'C06': ('All choices of sampled frames are enumerated and the reported statistics must be those of one of them; stationarity of the fit; coverage of the draws.', 'Sampling is random, so a test can only check ranges.'),
'C30': ('Ranks as forked processes joined by sockets; exactly-once monitor on the unique spot sets of the frames on rank 0, random access and shapes on every rank; the stand-in library checks sizes, types and order of all messages and collectives, and that every rank ends.', 'How files, positions and samples fall on the ranks, ranks with empty parts, and what the ranks exchange exist only with several processes; no test builds this code.'),
'C07': ('numpy definition of counting, per position; cross-checked with the threaded path.', 'Frame shapes, dark and gain combinations, layouts and block sizes are a product no test samples.'),
'C08': ('Exact integer ring sums, bit for bit.', 'Ring membership at the boundary, offsets in large blocks and thread timing only show for particular radii, sizes and schedules.'),
'C09': ('Counts of events inside the ring, for each representation after each step of a history.', 'Stale cached objects and swapped axes show only after particular histories and for non-square shapes.'),
'C10': ('Exact integer sums per ring and conservation of the total.', 'Lost additions need two threads at one position; far centres need unusual arguments.'),
'C11': ('Exact sums and maxima, permutation of frames.', 'Every block size and frame count, repeated positions.'),
'C12': ('Half-open interval counts between the returned edges, conservation.', 'Edge rounding depends on the values; constant images and huge sums are rare in data.'),
'C13': ('Model of the stream as a list of blocks and one possible error; online comparison over a history.', 'File boundaries, empty files, truncation at any byte.'),
'C14': ('The numpy array itself.', 'Layouts and dtypes multiply; only C-contiguous uint16 is ever tested.'),
'C15': ('h5py view of the written file against the frames of the files.', 'Reader state before the conversion, gaps, non-square scans.'),
'C16': ('Event list by event list comparison, nested metadata.', 'Equal-length rows, empty rows, several frames are format corner cases.'),
'C17': ('Occurrence counts in the file against the dense form, duplicate detector.', 'Version 1/2 files with duplicates are not in the test data.'),
'C18': ('numpy indexing of an independently built dense model; writes to result and source for independence.', 'The index space is infinite; sparse and dense code paths differ.'),
'C19': ('numpy reductions of the dense model.', 'Specialised and general paths, dtypes, empty positions.'),
'C20': ('numpy block sums; deep copy of the source.', 'Duplicates created by merging need dense frames and several frames per position.'),
'C21': ('Rational arithmetic.', 'Two algorithm versions, cropping boundaries, empty positions.'),
'C22': ('Exact integer distance tests on the dense model.', 'Aperture and bin boundaries.'),
'C23': ('Explicit DFT matrix of the defining equation; linearity, offset, purity; neighbourhood medians.', 'Odd and non-square shapes, flips.'),
'C24': ('ASan + UBSan + memory patterns; a plain phase with address space limits and extreme values; exact expectations for truncated acquisitions.', 'Hostile bytes, not the ones a detector writes.'),
'C25': ('Independent parser of names.', 'Prefix and suffix collisions in random directories.'),
'C26': ('Run counters and futures of every task, TSan, ASan, delays.', 'Lost wake-ups and destruction races need timing.'),
'C27': ('Time limit with isolated re-run; open descriptors and threads afterwards; a second count must be exact.', 'Hangs need a particular lack of frames, failing fit or fault at a particular moment.'),
'C28': ('Dictionary model of the whole HDF5 file after each step of a history.', 'Failures midway and pre-existing contents.'),
'C29': ('ASan/UBSan with patterns in freed memory; contents of every kept array compared later.', 'Orders of use and drop are unbounded; each program is a random history.'),
'C32': ('Model of the settings and of the dense array, compared after every step of a history, refused steps included.', 'Settings are lost by a particular operation after a particular other one, or by a call that fails halfway.'),
'C33': ('A recorder inside every decorated function notes the arguments that arrive; metadata and arguments are compared with the declarations, in histories over several functions.', 'A given None or 0 is taken for "not given"; a mutable default or the parameter table is shared; the order of decorators matters.'),
'C34': ('Resource monitor: bytes in use in the C allocator (mallinfo2), descriptors and threads after each batch of repetitions; growth in every batch is a leak. Run without sanitizers, so that the allocator is the real one.', 'Leaks are on error paths (a file that ends early, a scan that does not fit), and caches that are not emptied only matter for long data.'),
'C35': ('Fingerprints (bytes of the base array, identity, flags, sha256 and mtime of files) of everything handed in, before and after every call; half of the arrays are write-protected.', 'An operation works in place only for the type or layout for which the conversion does not copy.'),
'C36': ('Differential history checker: each operation on a used reader against the same operation on a reader opened for it alone.', 'State that survives a reset: positions after an abandoned loop, partial frames in the cache, error flags of a stream, buffers shared by readers.'),
'C37': ('A driver of the class under ASan/UBSan executes random programs; a model of the files (and h5py) says what each call must deliver, and the identifiers in use in the HDF5 library are counted after each.', 'Every type has entries of its own in three tables; regions, failures halfway and leaks of identifiers need particular calls.'),
}

LIMITS = '''## 5. What is outside of the domain

Found by trying, judged not to be defects (or not safely repairable), and
excluded by the statements or assumptions:

* `io.PyReader` with a block size of 0 never advances.
* `calculate_average`/`maximum_diffraction_pattern` of a reader without blocks
  give an empty image; `data_captured` of files without any header is NaN.
* One-dimensional scans: `create_stem_images`, `com_sparse`, and the file
  format need two scan dimensions.
* A pixel below the dark reference, without gain, wraps around in uint16
  arithmetic (threaded and classic paths); with gain the arithmetic is float.
* Dark references and gains of the wrong shape.
* The sequential sector reader is keyed by position, so acquisitions with
  several frames per position are for the other two backends; the single-pass
  backend is keyed by frame number, which must be unique.
* `read_frames` without selection raises for a position that has fewer frames
  than `num_frames_per_scan`.
* `electron_count` raises if there are fewer complete frames than sample blocks.
* Sparse `create_stem_images` adds 65535 per event (the mask value): the
  property asks for one fixed positive constant.
* `reshape` and `ravel_scans` of a SparseArray work in place.
* ThreadPool(0) and the use of one reader from two threads.
* A fit on a histogram of tens of thousands of bins is slow, not endless.
'''

ALARMS = '''## 6. False alarms met and corrected

* Reports of TSan inside pybind11's lazily initialised globals and in
  uninstrumented numpy: only reports with a frame of the library count, and
  `get_internals` is left out (`vf/tsan.supp`).
* An attempt to instrument libstdc++'s streams raised reports on correct code
  and was replaced by the file cells of section 2.
* Time limits hit on a busy machine: a case that times out is run again alone.
* C06: with a histogram of few distinct values the least-squares problem is
  ill-conditioned and the stationarity test was too strict: it is applied to
  noise-like samples only.
* C21: events within 1e-3 of the crop radius may fall on either side of it
  (float32 centres are part of the accepted algorithm).
* C23: a bad sector with a bad neighbour can be repaired from surviving or
  from already repaired values; the statement says surviving neighbours, and
  the oracle accepts both orders.
* C25: file names that follow neither scheme but carry digits made the oracle
  ambiguous; the domain is the two schemes and unrelated names.
* C29: the total of a raw radial sum was taken along the wrong axis when the
  number of rings happened to equal the sides of the scan.
* C27, C22: `read_frames` of a position with fewer frames than others, and
  rings of a frame of one pixel (both oracle mistakes when a new workload was
  added).
* C27: an unlucky combination of 16 threads and injected delays took longer
  than the first limit; delays are budgeted per case now.
'''

NA = '''## 7. Not applicable

* **C31** (VTK-m): VTK-m is not installed, so the code under `VTKm` cannot be
  built, and a technique that observes executions has none to observe. (For
  the MPI build, C30, small stand-ins for MPI, BigMPI and cereal are in
  vf/native/mpi: they transport bytes, and what is judged stays in stempy. A
  stand-in for VTK-m would have to contain the parallel algorithms themselves.)
'''

MUTATION = '''## 9. One-token mutations

`tools/mutate.py FILE CHECKS` changes one token at a time (comparisons,
constants, conditions, dropped statements) in a scratch copy and runs the quick
checks. It is used to look for parts of the behaviour that no oracle observes;
survivors were read one by one. What they led to: C32 (validation and settings
of sparse arrays), one-dimensional data in C18-C20, loading version 1 and 2
files without the flyback column in C17 (which exposed a defect), reads after
a count in C27. Left over are equivalent changes, warnings on stderr, texts of
messages and defaults that no documentation promises.
'''
