"""Writes /verif/properties.jsonl (kept in a script so that it stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

R, RH = 'stempy/reader.cpp', 'stempy/reader.h'
E, ET = 'stempy/electron.cpp', 'stempy/electronthresholds.cpp'
I, IH, M = 'stempy/image.cpp', 'stempy/image.h', 'stempy/mask.cpp'
PI, PIO = 'python/stempy/image/__init__.py', 'python/stempy/io/__init__.py'
SA = 'python/stempy/io/sparse_array.py'
BI, BIO, PR = 'python/image.cpp', 'python/io.cpp', 'python/pyreader.cpp'
CP = 'python/stempy/io/compatibility.py'

p('C01', 'Sector reader rebuilds every frame exactly once, pixel for pixel',
  'Reading a set of version 4 or 5 sector files with the sequential sector reader yields, for every scan position whose four sectors are present, exactly one 576x576 block whose pixels are the four sectors placed at their own detector quadrant/stripe and whose header carries the right image number and scan dimensions, whatever the number of files, the split of a sector over files, the order of the files and the order of positions inside a file. Positions with missing sectors are yielded once, after all others and in position order, with the pixels of the missing sectors zero; after that the reader reports the end, and reset() replays the same sequence. data_captured() is the number of sectors in the files divided by four times the number of scan positions.',
  ['inputs', 'histories'], 'all well-formed v4/v5 sector file sets with at most one frame per position (any interleaving over files, any subset of sectors missing), and all read/reset/iterate histories over them',
  'The repository has tests for one recorded multi-frame data set only when the (large) data is available; no test builds sector files with missing sectors, split files or interleaved positions.',
  [R, RH, BIO, PIO],
  [('round-robin over the streams with a per-position frame cache', 'SectorStreamReader::read'), ('quadrant placement', 'readSectorDataVersion4/5'), ('sector number from file name', 'extractSector'), ('partial frames flushed at the end', 'SectorStreamReader::read'), ('replay', 'SectorStreamReader::reset')],
  ['stempy.io.reader(files, version=4|5).read() / iteration / reset() / data_captured()'],
  [('m_frameCache', 'frames whose sectors have not all arrived', RH)])

p('C02', 'Multi-pass reader gives random access to every frame of every position',
  'For version 5 sector files the multi-pass reader reports scan_shape (rows, columns) and num_frames_per_scan (the largest number of distinct frames at a position), and read_frames(position, frames) returns exactly the requested frames, in the requested order, where frame k of a position is the one with the k-th smallest frame number and missing sectors are zero. The answer does not depend on the number of threads, on how sectors are split over files, on earlier read_frames or electron_count calls, or on whether the position is given as an index or as a (row, column) tuple; an out-of-range position or frame index is refused with an exception and never returns data.',
  ['inputs', 'histories', 'configurations'], 'all well-formed v5 sector file sets, thread counts, and sequences of calls on one reader',
  'The only test of this reader needs recorded data and reads a few fixed positions; histories of calls, other thread counts and incomplete frames are not exercised.',
  [R, RH, BIO, PIO],
  [('scan map built from the headers in parallel', 'SectorStreamMultiPassThreadedReader::readHeaders'), ('random access', 'readFrames / processFrame'), ('index handling', 'SectorThreadedMultiPassReader.read_frames')],
  ['SectorThreadedMultiPassReader.scan_shape / num_frames_per_scan / read_frames'],
  [('m_scanMap', 'location of each sector of each frame, per scan position', RH)])

p('C03', 'Threaded electron counting returns exactly the thresholded local maxima',
  'electron_count on a threaded reader returns, for every frame in the files (complete ones for the single-pass backend, also incomplete ones for the multi-pass backend), exactly the set of pixels that, after subtracting the dark reference, applying the gain and the optional row dark correction, lie strictly between the background and X-ray thresholds reported in the metadata and are strictly larger than all their in-frame neighbours; the coordinates are in increasing order and without duplicates. Every scan position has the same number of frames, equal to the largest number at any position and padded with empty ones, and scan_shape and frame_shape are those of the data. (Frame numbers are unique in the acquisition for the single-pass backend; the dark reference does not exceed the pixels when there is no gain, and the row statistic is positive.)',
  ['inputs', 'configurations'], 'all frame contents (plateaus, borders, values at thresholds), all combinations of dark reference, gain, row dark (mean/median), sigma and sample options, both threaded backends, v4 and v5 files',
  'The recorded-data tests compare one data set with one set of options to stored output; border pixels, plateaus, float gain and row dark are not settled.',
  [E, ET, BI, PI],
  [('background subtraction, gain and thresholding', 'electronCount(frame, ...)'), ('row dark', 'applyRowDark'), ('strict maximum over the 8 neighbours', 'maximalPoints'), ('padding', 'electronCount(Reader*, ...)')],
  ['stempy.image.electron_count(reader, ...).data and .metadata'])

p('C04', 'Counting loses and duplicates no frame under any thread schedule',
  'Whatever the number of threads, the interleaving of the reader and counting threads and the moment at which the sampling phase ends, electron_count over a threaded reader counts every frame delivered by the files (numbered uniquely in the acquisition) exactly once and at its own scan position, so that for fixed thresholds the result (frames of a position compared as a multiset) is the same for every schedule and both backends. A second count over the same multi-pass files gives the same result.',
  ['schedules', 'configurations'], 'all interleavings of the reader threads, sampling hand-over and counting, for 1 to 16 threads and 1 to 4 frames per position',
  'Tests run one schedule per execution with the default thread count and nothing perturbs it; the race window at the sampling hand-over is never hit on purpose.',
  [E, RH, R],
  [('sample collection and hand-over', 'counter lambda in electronCount(Reader*, ...)'), ('per-position mutexes', 'positionMutexes'), ('frame cache and stream queue locks', 'SectorStreamThreadedReader::readAll / nextStream')],
  ['stempy.image.electron_count(reader, ...).data'],
  [('sampleBlocks / electronCounting', 'sampling phase state', E), ('events', 'per-position event lists', E)])

p('C05', 'No data race in the threaded pipelines',
  'No two threads access the same memory location without synchronisation, one of them writing, in any of the multithreaded pipelines: threaded and multi-pass reading, header scanning, electron counting (including its sampling phase and incomplete frames), annular STEM images (each scan position occurring once), radial sums and concurrent use of independent readers, one per Python thread.',
  ['schedules', 'inputs'], 'all executions of the threaded pipelines, any thread count and any file contents that are well formed',
  'Unit tests observe results only; a race that happens not to corrupt the result on the test machine is invisible to them.',
  [RH, R, E, I, 'stempy/atomic_primitives.h', 'thirdparty/ThreadPool/ThreadPool.h', 'python/pyreader.h'],
  [('mutexes around cache, streams, queue, samples and positions', RH), ('atomic add in radial sums', 'sync_fetch_and_add'), ('thread pool queue lock', 'ThreadPool')],
  ['ThreadSanitizer reports while driving the Python API'])

p('C06', 'Threshold statistics are those of the sampled data',
  'The statistics reported with the thresholds are the minimum, maximum (rounded up to an integer), mean, unbiased variance and standard deviation of the dark-subtracted and gain-corrected pixels of the sampled frames, drawn at random from all of the frames offered as samples and no others; the X-ray threshold is mean + n_xray * std_dev, the background threshold is optimized_mean + n_background * optimized_std_dev, and (optimized_mean, optimized_std_dev) is a least-squares Gaussian fit to the histogram of the samples. The numbers of samples and sigmas reported are the ones asked for.',
  ['inputs', 'configurations'], 'all sample frames for which the fit converges, all options',
  'The recorded-data tests compare rounded thresholds of one data set; the statistics are random in general and no test recomputes them.',
  [ET, 'stempy/electronthresholds.h', BI, PI],
  [('sampling', 'calculateThresholds'), ('fit', 'GaussianErrorFunctor + LevenbergMarquardt'), ('metadata', '_electron_counted_metadata_to_dict')],
  ['_image.calculate_thresholds(...) and SparseArray.metadata["electron_counting"]'])

p('C07', 'Counting with iterator readers equals the definition, and the threaded path',
  'electron_count over a stream, sector, HDF5 or in-memory reader stores at each scan position exactly the strict local maxima lying between the given thresholds after dark subtraction, gain and row dark correction, one frame per position, whatever the block size, frame size (also non-square) and presence or absence of dark reference and gain; positions not in the data are empty. For integer-valued dark references and no gain the result equals the threaded path with the same thresholds.',
  ['inputs', 'configurations'], 'all frame sizes and contents, block sizes, reader kinds and option combinations',
  'Tests exercise this path only on recorded data with one option set; frames without dark reference and non-square frames are never counted.',
  [E, BI, PI, PR],
  [('classic counting loop', 'electronCount(first, last, options)'), ('options conversion', 'ElectronCountOptionsClassicPy::toCpp'), ('row dark', 'applyRowDark'), ('maxima', 'maximalPoints')],
  ['_image.electron_count(begin, end, ElectronCountOptionsClassic)', 'stempy.image.electron_count(reader, ...)'])

p('C08', 'Annular STEM image pixels are exact ring sums of the raw frames',
  'create_stem_images over any reader or raw array gives, for each pair of radii and each scan position, exactly the sum of the pixels of that position\'s frame whose squared distance d2 to the centre satisfies inner^2 <= d2 < outer^2, with image[k][y][x] belonging to image number y*width+x, negative centre coordinates meaning half the frame size rounded, and positions without a frame being 0 (every position occurs at most once, and the scan has two dimensions). Hence images over adjacent rings add up to the image over their union, and the result does not depend on block size, thread timing, or which other radii are requested.',
  ['inputs', 'configurations', 'schedules'], 'all frames, frame sizes, centres inside or outside the frame, radii lists, scan shapes, readers and block sizes',
  'The recorded-data test compares hashes of one image; odd centres, radii and non-square frames are not sampled.',
  [I, M, IH, BI, PI],
  [('mask', 'createAnnularMask'), ('masked sum on a thread pool', 'createSTEMImages / calculateSTEMValues')],
  ['stempy.image.create_stem_images(reader | h5py file | ndarray, ...)'])

p('C09', 'STEM images agree across all sparse representations',
  'create_stem_images gives the same images for the same counted events whether they are passed as the SparseArray returned by electron_count, as a plain SparseArray, as an array of event lists with frame and scan dimensions, or as a legacy counted-data tuple: each pixel is one fixed positive constant times the number of events of that position inside the ring, over all frames of the position. This holds for non-square frames and scans of two dimensions, several frames per position, and after the array has been sliced, binned or reshaped.',
  ['inputs', 'histories'], 'all event lists, shapes, centres and radii, all accepted input types and all prior in-place operations',
  'No test compares the input types with each other; non-square frames and derived arrays are never imaged.',
  [IH, I, BI, PI, SA],
  [('sparse masked sum', 'calculateSTEMValuesSparse'), ('dispatch on the input type', 'create_stem_images')],
  ['stempy.image.create_stem_images(...)'])

p('C10', 'Radial sums conserve intensity ring by ring',
  'radial_sum returns an array indexed [radius, y, x] in which entry r of a scan position is exactly the sum of the pixels whose distance to the centre, rounded up, is r; so summing over r gives the total intensity of each frame, without loss, for any centre, any frame shape, any block size and several frames at one position. It is the same for every schedule of the worker threads.',
  ['inputs', 'schedules'], 'all frames, shapes, centres and schedules',
  'Not tested without recorded data; concurrent accumulation into the same radius cannot be sampled by a unit test.',
  [I, 'stempy/atomic_primitives.h', IH, BI, PI],
  [('atomic accumulation', 'radialSumFrame'), ('largest radius', 'radialSum')],
  ['stempy.image.radial_sum(reader, ...)'])

p('C11', 'Average and maximum diffraction patterns are exact',
  'calculate_average returns the per-pixel mean over all frames of the reader and maximum_diffraction_pattern the per-pixel maximum (minus the dark reference if one is given), as (rows, columns) images in the orientation of the frames, for any number of frames, block size and frame shape; neither depends on the order of the frames.',
  ['inputs'], 'all frame stacks, block sizes, readers, orders',
  'Only checked on recorded data when available.',
  [I, BI, PI],
  [('accumulation', 'calculateAverage / maximumDiffractionPattern')],
  ['stempy.image.calculate_average / maximum_diffraction_pattern'])

p('C12', 'STEM histograms count every pixel exactly once',
  'For every STEM image and every positive number of bins, create_stem_histogram returns numBins+1 non-decreasing edges from the image minimum to its maximum, equally spaced, and frequencies that add up to the number of pixels, each pixel being counted in the bin whose half-open interval contains it (the last bin includes the maximum). An image whose pixels are all equal is counted completely in one bin.',
  ['inputs', 'configurations'], 'all image contents and bin counts',
  'One fixed data set is compared in the repository; edges hit by rounding are never sampled.',
  [I, PI],
  [('edges', 'getContainer'), ('counting', 'createSTEMHistogram')],
  ['stempy.image.create_stem_histogram'])

p('C13', 'Stream reader decodes versions 1 to 3 exactly, across files',
  'Reading version 1, 2 and 3 stream files yields exactly the blocks that were written, in order, with header fields (images in block, frame and scan dimensions, version, image numbers converted to start from 0) and pixels intact, when the stream is one file or a list of files of which some may be empty; reset() replays everything from the first file. A stream that ends in the middle of a block raises an error instead of returning made-up data, and every complete block before it is still delivered.',
  ['inputs', 'histories', 'fault_sequences'], 'all well-formed streams and all truncations of them, any split into files at block boundaries, all read/reset histories',
  'The test data for these readers is not in the repository; truncation and multi-file streams have no tests.',
  [R, RH, BIO, PIO],
  [('header parsing', 'StreamReader::readHeaderVersion1/2/3'), ('file rollover', 'openNextFile / read'), ('replay', 'reset')],
  ['stempy.io.reader(path | list, version=1|2|3)'])

p('C14', 'HDF5 and in-memory readers deliver the stored frames, whatever their layout',
  'A reader over an HDF5 file written by save_raw_data, or over a numpy array, delivers every frame once, in order and in blocks of at most the block size, with the right image numbers, shape and pixels, also for non-square frames, a last partial block, explicit scan positions, and after reset(). The memory layout (C, Fortran, strided view) or dtype (any unsigned integer type that fits) of arrays given as raw data, dark reference, gain or event lists never changes a result.',
  ['inputs', 'configurations'], 'all shapes, layouts, block sizes, scan positions and dtypes',
  'Tests use contiguous square arrays only.',
  [PR, 'python/pyreader.h', BI, BIO, PIO, PI],
  [('block slicing', 'PyReader::read'), ('buffer protocol', 'python/io.cpp def_buffer'), ('array conversion', 'py::array_t arguments')],
  ['stempy.io.reader(h5file), stempy.io.PyReader, save_raw_data'])

p('C15', 'Sector data converted to HDF5 keeps every frame at its place',
  'write_hdf5 from a sector reader that nothing was read from before stores every frame of the files at its own scan position with the pixels the reader delivers, zeros for positions without data, in Frame format ([image number, row, column], scan_dimensions attribute = (width, height)) and in DataCube format ([x, y, row, column]). The Frame file can be opened with stempy.io.reader and gives the same frames and STEM images as the sector files.',
  ['inputs'], 'all well-formed sector file sets, including missing sectors and non-square scans',
  'No test writes HDF5 from sector files without the recorded data.',
  [R, 'h5cpp/h5readwrite.cpp', PIO],
  [('writers', 'toHdf5FrameFormat / toHdf5DataCubeFormat'), ('hyperslab update', 'H5ReadWrite::updateData')],
  ['h5py view of the file; stempy.io.reader(h5file)'])

p('C16', 'Electron count files round-trip',
  'A SparseArray with two scan dimensions saved with save_electron_counts and loaded with load_electron_counts is equal to the original: scan and frame shape, every event list of every frame of every position, and the (nested) metadata. Loading with keep_flyback=False gives exactly the array with its last scan column removed.',
  ['inputs', 'histories'], 'all arrays (empty frames, several frames per position, non-square scan and frame shapes, nested metadata)',
  'Tests round-trip one small array; shape/order confusions show only for non-square shapes and several frames.',
  [SA, PIO],
  [('flattening and attributes', 'SparseArray.write_to_hdf5'), ('reshaping, flyback cropping', 'SparseArray.from_hdf5'), ('metadata', 'save_dict_to_h5 / load_h5_to_dict')],
  ['stempy.io.save_electron_counts / load_electron_counts'])

p('C17', 'Old electron count files load without losing or inventing counts',
  'Loading a version 1 or version 2 electron count file gives an array whose dense form equals the counts in the file: every occurrence of a coordinate at a scan position counts once, at that position and no other, duplicates within a version 1 frame being spread over extra frames so that no loaded frame contains a coordinate twice. All positions get the same number of frames. With keep_flyback=False the same array without its last scan column is loaded, whatever the order and number of the rows in the file.',
  ['inputs'], 'all version 1 and 2 files (duplicates, repeated and unordered scan positions, empty frames)',
  'Tests convert one hand-made example.',
  [CP, SA],
  [('conversion', 'convert_data_format and the convert_data_* functions'), ('version detection', 'is_data_v1_format')],
  ['stempy.io.load_electron_counts / SparseArray.from_hdf5'])

p('C18', 'SparseArray indexing agrees with numpy on the dense array',
  'Indexing a SparseArray with integers, slices (any start, stop and step), integer lists/arrays and boolean masks, on the scan part and/or the frame part, gives the same values and shape as applying the scan part and then the frame part to its dense form, both in sparse-slicing and dense-slicing mode, for 3-D and 4-D arrays and several frames per position; the result is independent of the original (changing it changes nothing else). Indices outside the documented forms raise an error instead of returning wrong data.',
  ['inputs', 'histories'], 'all arrays and all combinations of supported index expressions',
  'Tests compare a list of fixed index expressions on one array.',
  [SA],
  [('splitting scan and frame indices', '_split_slices'), ('sparse slicing', '_slice_sparse'), ('dense slicing', '_slice_dense / _expand')],
  ['SparseArray.__getitem__, to_dense'])

p('C19', 'SparseArray reductions agree with numpy on the dense array',
  'sum, max, min and mean of a SparseArray over any axis or tuple of axes (including the scan axes, the frame axes and all axes, counted from either end) equal the corresponding numpy reduction of its dense form, in value, shape and requested dtype, for any number of frames per position and for empty frames and positions. Reshaping moves no event: the dense form of the reshaped array is the reshaped dense form.',
  ['inputs'], 'all arrays, axes, dtypes',
  'Tests use one array with no empty position.',
  [SA],
  [('specialised reductions', 'max/min/sum/mean'), ('full expansion fallback', '_default_full_expansion'), ('reshape', 'reshape / ravel_scans')],
  ['SparseArray.sum/max/min/mean/reshape'])

p('C20', 'Binning equals binning of the dense array and leaves the source alone',
  'bin_scans and bin_frames by any factor dividing the shape give arrays whose dense form is the block-summed dense form, conserving the total number of events, for square and non-square shapes and any number of frames per position; no frame of a bin_frames result contains a coordinate twice. Without in_place the source array is unchanged (data, shapes and arrays shared with it), with in_place the same result replaces it, and the two binnings commute.',
  ['inputs', 'histories'], 'all arrays, factors, in_place choices, sequences of binnings',
  'Tests bin one square array with fixed factors.',
  [SA],
  [('scan binning', 'bin_scans'), ('frame binning', 'bin_frames')],
  ['SparseArray.bin_scans / bin_frames / to_dense'])

p('C21', 'Centre of mass from sparse data is the true centre of mass',
  'com_sparse returns for each scan position (mean column, mean row) over all its events, optionally restricted to events within crop_to of the given initial centre or of the position\'s own centre of mass; positions without (remaining) events are NaN, or the mean over the other positions when replace_nans is set. Both algorithm versions agree with each other and with com_dense of the dense frames, for non-square frames and scans and several frames per position.',
  ['inputs', 'configurations'], 'all arrays, crop radii, centres, versions',
  'Tests compare the versions for a few parameter sets on random square data (two of the five stable tests) and never with the definition on non-square frames.',
  [PI],
  [('two implementations', '_com_sparse_v0 / com_v1_kernel')],
  ['stempy.image.com_sparse / com_dense'])

p('C22', 'Sparse imaging helpers equal their dense definitions',
  'radial_sum_sparse is the histogram of the event radii per scan position in unit bins up to half the larger frame side, virtual_darkfield counts the events within each aperture, summed over apertures, mask_real_space sums the frames of the selected positions, and calculate_sum_sparse sums event lists into one pattern. Each equals the same computation on the dense array, for non-square frames and scans, several frames per position, and empty frames.',
  ['inputs'], 'all arrays, centres, radii, masks',
  'One of the five stable tests checks one radial sum; the others have fixed tiny inputs or none.',
  [PI],
  [('helpers', 'radial_sum_sparse / virtual_darkfield / mask_real_space / calculate_sum_sparse')],
  ['the functions\' results'])

p('C23', 'Phase reconstruction solves the defining Fourier equation',
  'phase_from_com returns the real, zero-mean field whose discrete Fourier transform is (ky*F[y-component] + kx*F[x-component]) / (2*pi*i*|k|^2 + reg) after rotating the centre-of-mass field by theta (with the optional flip), for any even or odd, square or non-square shape. It is therefore linear in the input, unaffected by adding a constant to either component, and does not modify its input; filter_bad_sectors replaces exactly the positions outside the cut-off by the median of their surviving neighbours and leaves every other position unchanged.',
  ['inputs', 'configurations'], 'all fields, shapes, angles, flips',
  'One fixed smoke test exists.',
  [PI],
  [('Fourier integration', 'phase_from_com'), ('local median', 'filter_bad_sectors')],
  ['stempy.image.phase_from_com / filter_bad_sectors'])

p('C24', 'Malformed or truncated raw files never corrupt memory or invent data',
  'Whatever the bytes of the raw files (truncated at any point, random headers, image numbers outside the scan, zero or huge scan sizes, unexpected sector numbers in file names), reading, imaging or counting them with any reader either raises a Python exception or returns data whose shape is bounded by the header; no out-of-bounds or uninitialised memory access, no undefined behaviour, no crash and no hang. A sector of which only a part is in the file never makes the rest of that stream, or other positions, read wrong.',
  ['inputs', 'fault_sequences', 'crash_points'], 'all byte strings as raw files; in particular every truncation point of a well-formed acquisition',
  'No test reads a malformed file; memory errors are invisible without instrumentation.',
  [R, RH, E, I, BI],
  [('stream state checks', 'readHeader / readSectorData / readHeaders / processFrame'), ('bounds checks on image numbers and sectors', 'createSTEMImages, radialSum, electronCount, openFiles')],
  ['AddressSanitizer/UBSan reports and exit status while driving the Python API'])

p('C25', 'Scan path lookup returns the file that matches, or fails',
  'get_scan_path returns a file of the directory whose name carries the requested scan number and/or scan id (and threshold and suffix) together with the scan number and id written in that name, trying the new naming scheme before the old one. If several files match it raises ValueError, if none does FileNotFoundError; it never returns a file with another scan number, id or suffix.',
  ['inputs', 'configurations'], 'all directories of old- and new-style names and all queries',
  'Tests look up a few fixed names.',
  ['python/stempy/contrib/__init__.py'],
  [('glob patterns and name parsing', 'get_scan_path_version_0/1')],
  ['stempy.contrib.get_scan_path'])

p('C26', 'The thread pool runs every accepted task exactly once',
  'Every task accepted by the worker pool runs exactly once, its future delivers its result or its exception, and destroying the pool waits for all accepted tasks, for any positive number of workers, any number of producers and any timing.',
  ['schedules'], 'all interleavings of producers, workers and destruction',
  'No test exercises the pool directly.',
  ['thirdparty/ThreadPool/ThreadPool.h'],
  [('queue lock and condition', 'ThreadPool::enqueue / worker loop / ~ThreadPool')],
  ['futures returned by enqueue, call log of the tasks'])

p('C27', 'electron_count always ends: with a result or an exception',
  'electron_count over a threaded reader returns a result or raises an exception in bounded time for every well-formed file set and every option value, also when there are fewer complete frames than sample blocks asked for, when the threshold fit fails, when frames are constant, and when a worker fails; the process and the readers stay usable afterwards.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'all file sets (including no complete frame), option values and schedules',
  'No test runs the failure paths: they hang or crash the test process.',
  [E, ET, RH],
  [('sample hand-over and completion', 'electronCount(Reader*, ...)'), ('exceptions from the fit', 'calculateThresholds'), ('futures', 'readAll')],
  ['return or exception of stempy.image.electron_count under a step budget'])

p('C28', 'Raw data and STEM image files round-trip',
  'save_raw_data followed by reading the file gives back the frames, scan dimensions and scan positions, compressed or not, and the STEM images computed from the file equal those computed from the array. save_stem_images stores images and names unchanged under /stem and adds to an existing file without touching its other contents; mismatched lengths are refused before anything is written, and saving STEM images a second time raises and changes nothing.',
  ['inputs', 'histories'], 'all arrays, options and orders of saving into one file',
  'No test checks these round trips beyond one example.',
  [PIO],
  [('HDF5 writers', 'save_raw_data / save_stem_images'), ('reader', 'get_hdf5_reader')],
  ['h5py view of the file; stempy.io.reader(h5file)'])

p('C29', 'Returned arrays stay valid and valid input never causes memory errors',
  'Every array handed to Python (blocks, images, radial sums, event lists) stays valid and unchanged after the reader, block or counted-data object it came from is deleted or reset, and blocks read earlier are not altered by later reads. No operation on valid input performs an invalid memory access or undefined behaviour, whatever the order in which objects are used and dropped.',
  ['histories', 'programs', 'inputs'], 'all sequences of reader, imaging and counting operations on valid files with objects dropped in any order',
  'Tests keep every object alive and run without instrumentation.',
  [BI, BIO, PR, 'python/pyreader.h', RH, I, E, SA],
  [('buffer ownership', 'python/io.cpp, python/image.cpp def_buffer'), ('vector hand-over', 'vectorToPyArray'), ('block reference holding', 'PyBlock / DataHolder')],
  ['AddressSanitizer/UBSan reports; contents of arrays kept across deletions'])

p('C30', 'Counting distributed over MPI ranks gives every frame exactly once',
  'With any number of MPI ranks (more than files or scan positions too), threads and sample blocks, electron_count through the multi-pass reader gives on rank 0 for every position the events of each of its frames exactly once, whichever rank read which file in which order, also when a reader is used several times or several readers are; the thresholds come from sample blocks of all ranks that have any, every rank reports the dimensions of the acquisition, and random access and the number of frames are right on every rank. All ranks come to their end, and the messages they exchange match.',
  ['configurations', 'schedules', 'histories'], 'all acquisitions in version 5 files, numbers of ranks, partitions of files, positions and samples, orders of calls that all ranks share',
  'The MPI build is not tested.',
  ['stempy/electron_mpi.cpp', 'stempy/reader_mpi.cpp', 'stempy/streamview.h', E, RH, 'stempy/reader.cpp'],
  [('gather', 'gatherEvents / gatherBlocks'), ('scan map', 'gatherScanMap / partitionScanMap'), ('samples', 'getSampleBlocksPerRank, broadcastThresholds')],
  ['electron_count on rank 0; shapes, random access and ends of all ranks; messages between them'])

p('C31', 'The VTK-m build gives the same results as the default build',
  'Counting, STEM images and radial sums of the VTK-m build equal those of the default build on the same input.',
  ['configurations', 'inputs'], 'all inputs',
  'The VTK-m build is not tested.',
  [E, I],
  [('parallel variants', 'maximalPointsParallel, calculateSTEMValuesParallel, RadialSumWorklet')],
  ['results of the two builds'])

p('C32', 'Sparse arrays refuse what does not fit and keep their settings',
  'The SparseArray constructor refuses data that is not one list of integer coordinates per frame and position (wrong number of dimensions or positions, lists that are not integers), and reshaping refuses shapes that are not three- or four-dimensional or would move events between positions and frames; a refused call leaves the array as it was. dtype, sparse_slicing and allow_full_expand, given to the constructor or to from_hdf5, stay what they were set to through indexing, binning, reshaping, reductions, to_dense and refused calls, are inherited by derived arrays, and decide the kind of every result: an array that does not allow full expansion refuses every dense slice of the full shape and every reduction that would need one (to_dense is always allowed), and one that allows it gives the same values as numpy. Metadata belongs to one array only.',
  ['inputs', 'histories', 'configurations'], 'all data and shapes offered, all settings and all histories of operations, including refused ones',
  'The tests build arrays of one kind with one setting and do not look at them after a failed call.',
  [SA],
  [('validation', 'SparseArray._validate / reshape'), ('guard against full expansion', 'SparseArray._slice_dense / _default_full_expansion'), ('restoring settings', 'SparseArray.to_dense')],
  ['exceptions and attributes of SparseArray after every step of a history'])

PP = 'python/stempy/pipeline/__init__.py'
p('C33', 'Pipeline functions describe and receive exactly what was declared',
  'A function decorated with pipeline and any number of parameter decorators, in any order, carries NAME, DESCRIPTION, INPUT, OUTPUT, AGGREGATION as declared (the documented defaults otherwise) and PARAMETERS with name, type, label, description and default of every declared parameter in the order of declaration; calling it passes every declared parameter, the value given by keyword (None and false values too) or else the declared default, all other arguments unchanged, and hands back the return value or exception of the function. Functions are independent of each other and of earlier calls.',
  ['inputs', 'histories'], 'all declarations (names, types, defaults, order of decorators) and all histories of calls of several functions',
  'There is no test of the pipeline module; what goes wrong (a default that replaces a given None, a shared dictionary) needs particular declarations or calls after others.',
  [PP],
  [('decorators', 'stempy.pipeline.pipeline / parameter')],
  ['attributes of decorated functions and the arguments a recorder in the function receives'])
p('C34', 'No operation leaks memory, file descriptors or threads',
  'Repeating any operation of the library (opening and reading with every kind of reader, completely or not; images, radial sums, averages, maxima, histograms, thresholds, electron counting with iterator and threaded readers, HDF5 conversion, count files), with valid or refused arguments and with complete, truncated, damaged or missing files, does not let the memory in use, the open descriptors or the threads of the process grow: all is released when the objects are dropped, also when the operation raised. While a sector reader reads, its memory is bounded by the frames that are still incomplete, not by the length of the data.',
  ['inputs', 'fault_sequences', 'histories'], 'all operations and all ways in which they fail, repeated any number of times',
  'Tests run each operation once and never look at what remains; leaks sit on error paths.',
  [R, RH, E, I, IH, BI, PR],
  [('masks of STEM images', 'createSTEMImages'), ('frame cache', 'SectorStreamReader::read / m_frameCache'), ('worker threads', 'SectorStreamThreadedReader::readAll / ThreadPool destructor'), ('buffers handed to Python', 'vectorToPyArray capsules')],
  ['bytes in use in the C allocator, /proc/self/fd and /proc/self/task after each batch of repetitions'])
p('C35', 'Inputs are never modified',
  'No function changes what it is given to read: the frames behind a PyReader, dark references, gains, event lists (also those of views and slices), masks, centre of mass fields, index arrays, lists, dictionaries and metadata keep their contents, types, shapes and flags; raw, HDF5 and count files keep contents, size and modification time, and no file appears beside them. Write-protected arrays are accepted wherever writable ones are. (Excepted are operations that are asked to work in place, and output files.)',
  ['inputs', 'configurations'], 'all valid inputs, in every memory layout and type, writable or not, and all operations',
  'Tests look at results, not at what happens to inputs; an in-place operation shows only with the type or layout that avoids a copy.',
  [PI, PIO, SA, BI, E, ET],
  [('dark subtraction on copies of blocks', 'electronCount / calculateThresholds'), ('conversion of dark and gain', '_safe_cast / electron_count'), ('binning and slicing', 'SparseArray.bin_frames / _slice_sparse'), ('in place filter', 'filter_bad_sectors')],
  ['bytes, identity and flags of every argument, and digests of every file, before and after each call'])
p('C36', 'What a reader delivers does not depend on its past or on other readers',
  'The outcome of every operation on a reader (blocks read, images, sums, averages, maxima, histograms, electron counts, frames of a position, the captured fraction, or the exception) is the same as on a reader just opened on the same data, whatever was done before the last reset (complete or abandoned iterations, partial reads, computations, refused calls, ends of file), and whatever other readers of the same data are doing in between; multi-pass readers give the same frames and counts in every order and repetition without any reset.',
  ['histories', 'inputs'], 'all interleaved histories of operations on any number of readers of the same data, for every kind of reader',
  'Tests use a fresh reader for each computation; state left behind (caches, positions, static buffers, error flags of streams) shows only in later operations.',
  [R, RH, PIO, PR],
  [('rewinding', 'StreamReader::reset / SectorStreamReader::reset / PyReader::reset'), ('frame cache and map', 'SectorStreamReader::m_frameCache / SectorStreamMultiPassThreadedReader::m_scanMap')],
  ['outcome of each operation, compared with that of a reader opened for it alone'],
  [('position of the reader', 'where the next block starts', 'StreamReader::m_curFileIndex / PyReader::m_currIndex'),
   ('m_frameCache', 'frames not complete yet', 'stempy/reader.h SectorStreamReader')])

p('C37', 'Data kept through the HDF5 layer comes back; anything else is refused',
  'Whatever H5ReadWrite writes (groups, data sets of every type, whole or region by region, attributes of every type on groups and data sets) is in the file with exactly these names, types, dimensions, chunks and values, and is what every way of reading delivers, whole or with any start, counts and strides; children, allDataSets, isGroup, isDataSet, hasAttribute, the types and the dimensions describe the file as it is. Reading as another type, of attributes of several values as one, of regions outside, of missing paths or from files that are closed or could not be opened reports failure, as does writing to existing names or to files opened for reading, which changes nothing. No call leaves HDF5 objects open or the error handling of the program changed; after close the file can be opened again.',
  ['inputs', 'histories'], 'all programs of operations, on files of its own and of other writers',
  'No test uses the layer directly; stempy itself uses few of its types and paths.',
  ['h5cpp/h5readwrite.h', 'h5cpp/h5readwrite.cpp', 'h5cpp/h5typemaps.h', 'h5cpp/hidcloser.h'],
  [('type maps', 'BasicTypeToH5 / DataTypeToH5DataType / DataTypeToH5MemType'), ('regions', 'H5ReadWriteImpl::readData / updateData'), ('closing of identifiers', 'HIDCloser')],
  ['results of the public interface of h5::H5ReadWrite; the file seen by h5py; identifiers in use in the library'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
