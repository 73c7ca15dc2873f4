#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it is diffable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": hook,
        },
    })


prop("C01", "Sector streams reassemble into exactly the frames the detector captured",
     "Reading version 4 or version 5 sector files that hold one frame per scan position yields one image per scan position that has data, carrying that position's index, the scan dimensions of the file headers, and every pixel at the row and column where the detector recorded it. The result does not depend on the order in which sectors are stored or on how they are spread over files. Pixels of sectors that are missing are zero, the frame is still delivered, and data_captured() is the fraction of the expected sectors that are present; after reset() the same images are delivered again.",
     ["inputs", "histories"],
     "All scan sizes, sector orders, distributions of sectors over files and modules, subsets of missing sectors, pixel contents, and read/reset histories.",
     "No test that runs offline reads a raw file at all; the networked tests use one recorded data set with a single sector order and nothing missing.",
     ["stempy/reader.cpp", "stempy/reader.h", "python/io.cpp", "python/stempy/io/__init__.py"],
     [("sector cache keyed by scan position, completed at four sectors, leftovers flushed at the end", "stempy/reader.cpp SectorStreamReader::read"),
      ("per-version sector placement", "stempy/reader.cpp readSectorDataVersion4/5")],
     ["stempy.io.reader(files, version=4|5): iteration, reset(), data_captured()"],
     [("frame cache", "partially assembled frames by scan position", "stempy/reader.h SectorStreamReader")])

prop("C02", "Whole-frame streams deliver every stored image in order, across files",
     "Reading version 1, version 2 or version 3 files delivers every image stored in the given files exactly once, in the order of the files and of the images within them, with its image number, dimensions and pixel values (version 1 image numbers, stored counting from one, are delivered counting from zero; the 1600 images of a version 2 block are numbered from zero). Reading ends after the last image, and after reset() the same sequence is delivered again from any point at which reset() is called.",
     ["inputs", "histories"],
     "All block sizes, frame sizes, image counts, splits over files, pixel values, and interleavings of read and reset.",
     "Offline tests never open a raw file; the networked ones read one file from start to end.",
     ["stempy/reader.cpp", "stempy/reader.h", "python/io.cpp", "python/stempy/io/__init__.py"],
     [("header parsing per version", "stempy/reader.cpp StreamReader::readHeaderVersion1/2/3"),
      ("advance to next stream at end of file", "stempy/reader.cpp StreamReader::read, StreamReader::atEnd")],
     ["stempy.io.reader(files, version=1|2|3): iteration, reset()"])

prop("C03", "Random access returns exactly the frames captured at a scan position",
     "With the multi-pass reader, read_frames(position, slice) returns, for a position given as an index or as a (row, column) tuple, the frames that numpy indexing of that position's frames in order of capture would select, each with all its sectors in place, whatever was read before and with however many threads; sectors not captured are zero. num_frames_per_scan is the largest number of frames at any position, scan_shape is (rows, columns), and a position or slice that does not exist is refused with IndexError.",
     ["inputs", "histories", "configurations"],
     "All data sets (frames per position, orders of sectors on disk, missing sectors), thread counts, positions, slices (integers, negative integers, slices, index lists, boolean masks) and sequences of calls.",
     "The one test of read_frames needs a network download and compares a handful of fixed slices on one complete data set.",
     ["stempy/reader.cpp", "stempy/reader.h", "python/io.cpp", "python/stempy/io/__init__.py"],
     [("scan map: scan position -> frame number -> sector locations", "stempy/reader.h m_scanMap, stempy/reader.cpp SectorStreamMultiPassThreadedReader::readHeaders"),
      ("load_frames", "stempy/reader.cpp SectorStreamMultiPassThreadedReader::loadFrames"),
      ("slice resolution", "python/stempy/io/__init__.py SectorThreadedMultiPassReader.read_frames")],
     ["SectorThreadedMultiPassReader.read_frames / num_frames_per_scan / scan_shape"],
     [("scan map", "locations of each sector of each frame", "stempy/reader.h")])

prop("C04", "Threaded electron counting finds exactly the electrons in every frame",
     "electron_count() on either threaded reader returns, for every scan position, one event list per frame captured there (the threaded reader passes on complete frames only, the multi-pass reader fills missing sectors with zeros), padded with empty lists, each holding exactly the pixels whose corrected value (minus dark reference, divided by gain, or row-dark corrected when asked) lies strictly between the reported background and x-ray thresholds and is strictly greater than all its neighbours, where a neighbour outside that range counts as zero (for background thresholds that are not negative). Without gain, values are whole numbers and a pixel below the dark reference counts as zero. No frame is lost, duplicated or credited to another position, and scan shape, frame shape and threshold metadata describe the data that was counted. Options that are left out have their documented defaults.",
     ["inputs", "configurations", "schedules"],
     "All data sets (any number of frames per position, any sector order, incomplete frames, frames split over files), dark references, gains, row-dark settings, threshold sigmas, numbers of threshold blocks and thread counts.",
     "All counting tests need a network download; they compare one data set with stored results for one configuration.",
     ["stempy/electron.cpp", "stempy/electron.h", "stempy/reader.h", "stempy/reader.cpp", "python/stempy/image/__init__.py", "python/image.cpp"],
     [("threshold + local-maximum search", "stempy/electron.cpp maximumPoints, electronCount"),
      ("work distribution and per-position result slots", "stempy/electron.cpp electronCount(Reader*, ...)"),
      ("dark, gain and row-dark correction", "stempy/electron.cpp applyGain/applyRowDark...")],
     ["stempy.image.electron_count(reader(..., backend='thread'|'multi-pass'), ...)"])

prop("C05", "Serial electron counting applies the same definition to every image",
     "electron_count() on a serial reader (raw file, sector file, HDF5 or in-memory data) returns for each scan position exactly the pixels whose dark-subtracted, gain-corrected (or row-dark corrected) value is strictly between the two thresholds and strictly greater than all its neighbours (neighbours outside the range count as zero, for background thresholds that are not negative), encoded row-major as row*width+column, for square and non-square frames and with or without a dark reference. Positions for which no image was stored have no events.",
     ["inputs", "configurations"],
     "All frame shapes and pixel values, image orders and missing positions, with and without dark reference, gain and row-dark correction, and all threshold settings.",
     "The tests of counting need a network download and check one square data set; no test covers non-square frames, missing dark references or row dark.",
     ["stempy/electron.cpp", "stempy/electron.h", "python/image.cpp", "python/stempy/image/__init__.py", "python/pyreader.cpp"],
     [("electronCount over block iterators", "stempy/electron.cpp electronCount(InputIt, InputIt, ...)"),
      ("maximumPoints", "stempy/electron.cpp")],
     ["stempy.image.electron_count(reader, ...)", "_image.electron_count(begin, end, ElectronCountOptionsClassic)"])

prop("C06", "Counting thresholds follow from the statistics of the sampled frames",
     "The metadata of electron counting reports the minimum, maximum, mean, variance and standard deviation of the corrected pixel values of the sampled frames (without gain a pixel below the dark reference is zero; the maximum of fractional values may be rounded up); the x-ray threshold is mean plus x-ray sigma times standard deviation, and the background threshold is the fitted peak mean plus background sigma times the fitted standard deviation. The fit recovers the centre and width of a Gaussian background to within a histogram bin or so, and subtracting a constant dark value shifts means and thresholds by that constant. Samples that determine no thresholds (none asked for, no blocks, constant pixels) are refused with an exception.",
     ["inputs", "configurations"],
     "All backgrounds (centre, width), dark references, gains, sigmas, sample counts and numbers of blocks.",
     "Offline tests never compute a threshold; the networked ones compare two numbers for one data set.",
     ["stempy/electronthresholds.cpp", "stempy/electronthresholds.h", "python/image.cpp", "python/stempy/image/__init__.py"],
     [("calculateThresholds", "stempy/electronthresholds.cpp"),
      ("Gaussian fit (least-squares)", "stempy/electronthresholds.cpp GaussianErrorFunction")],
     ["_image.calculate_thresholds", "SparseArray.metadata['electron_counting']"])

prop("C07", "Threaded reading and counting is free of data races and always terminates",
     "For every number of threads and every interleaving of workers, reading and counting with the threaded readers terminates and gives the same events, without unsynchronised access to shared data. This also holds when positions hold many frames, when there are fewer frames than threshold blocks were asked for, and when a reader is used several times in a row: the multi-pass reader gives the same frames in every pass, the threaded reader after each reset (before that, there is nothing left to read). A failure in any worker (no thresholds, positions outside of the scan, a functor that throws) becomes an exception of the call, after which the reader can be reset and used again.",
     ["schedules", "histories", "configurations"],
     "All thread counts, interleavings of workers, data sets, numbers of threshold blocks and histories of calls on one reader.",
     "A test run samples one schedule on one data set, and cannot see a race that did not change the result.",
     ["stempy/electron.cpp", "stempy/reader.h", "stempy/reader.cpp", "stempy/atomic_primitives.h", "thirdparty/ThreadPool/ThreadPool.h"],
     [("per-position mutexes on the events", "stempy/electron.cpp electronCount"),
      ("frame cache mutexes, stream mutexes, processed counter", "stempy/reader.h readAll / nextStream"),
      ("futures and the thread pool", "stempy/reader.h m_pool, m_futures")],
     ["ThreadSanitizer build of the C++ API driven over generated data sets", "repeated electron_count on one reader"])

prop("C08", "Damaged raw files never corrupt memory, hang or alter intact frames",
     "Whatever bytes a raw file contains (truncated, overwritten, wrong version, header fields out of range, empty or misnamed files), and whatever shapes, types and attributes raw data in an HDF5 file has, every reader, and every function that reads from one, either delivers a result or raises an exception: it never crashes, reads or writes outside its buffers, or hangs (given memory for the scan dimensions that the headers state). Damage at the end of a file costs only the blocks or sectors it touches: those stored completely before the first damaged byte are delivered unchanged, or the call raises; and a reader that meets no damage delivers all of them.",
     ["inputs", "fault_sequences"],
     "All truncations, byte mutations and header-field corruptions of files of every version, all ways of combining good and bad files, and all inconsistent HDF5 raw data (shapes, types, scan positions and dimensions).",
     "No test reads a damaged file.",
     ["stempy/reader.cpp", "stempy/reader.h", "python/io.cpp", "python/pyreader.cpp"],
     [("short-read and range checks while parsing headers", "stempy/reader.cpp read<T>, readHeader*"),
      ("sector and position checks", "stempy/reader.cpp SectorStreamReader::read, readSectorData*")],
     ["AddressSanitizer/UBSan build of the readers on mutated files", "stempy.io.reader on mutated files"])

prop("C09", "Raw data survives HDF5 export and re-import unchanged",
     "Writing a sector reader to HDF5 in frame or data-cube format stores every scan position's frame at its own index, along with the scan dimensions; data written with save_raw_data (compressed or not, in scan order or with scan positions) or with write_hdf5, opened again through the reader interface, delivers the same image numbers, scan dimensions and pixels. Images built from the re-opened file equal those built from the original source.",
     ["inputs", "configurations"],
     "All scan and frame shapes, integer pixel types, scan orders, compression settings, missing sectors and both output formats.",
     "The networked test converts one data set; the offline tests never write raw HDF5.",
     ["stempy/reader.cpp", "h5cpp/h5readwrite.cpp", "python/pyreader.cpp", "python/stempy/io/__init__.py"],
     [("toHdf5FrameFormat / toHdf5DataCubeFormat", "stempy/reader.cpp"),
      ("H5ReadWrite data set creation and hyperslab updates", "h5cpp/h5readwrite.cpp"),
      ("PyReader::read", "python/pyreader.cpp")],
     ["io.write_hdf5, io.save_raw_data, io.reader(h5py.File)"])

prop("C10", "STEM images from raw data are annular sums of each frame",
     "create_stem_images() on raw data (reader, HDF5 file or array) returns one image per pair of radii in the order given, whose value at a scan position is the sum of that position's frame over the pixels at distance d from the centre with inner <= d < outer (radii that are not negative). The default centre is the middle of the frame, also taken for a negative centre coordinate; positions without data are zero; the result does not depend on the order in which frames arrive or on how they are split into blocks and files.",
     ["inputs", "configurations"],
     "All frame and scan shapes, radii, centres (inside and outside the frame), data orders and sources.",
     "test_simple checks one constant synthetic array with one pair of radii; the other tests need a download.",
     ["stempy/image.cpp", "stempy/mask.cpp", "stempy/image.h", "python/image.cpp", "python/stempy/image/__init__.py"],
     [("annular mask", "stempy/mask.cpp createAnnularMask"),
      ("masked sum per block", "stempy/image.cpp calculateSTEMValues, createSTEMImages")],
     ["stempy.image.create_stem_images"])

prop("C11", "STEM images from counted data count the electrons inside the annulus",
     "create_stem_images() on counted data with two scan dimensions gives at each scan position the number of events, over all frames of that position, at distance d from the centre with inner <= d < outer, multiplied by one constant that is the same for all positions, radii and inputs. SparseArray, raw arrays of event lists (one or several frames per position), legacy counted-data objects and the direct result of electron_count() give the same image for the same events, for non-square frames too, and the image always reflects the current content of the array, also after binning or reshaping in place.",
     ["inputs", "histories"],
     "All scan and frame shapes, event lists, frames per position, centres, radii, input kinds, and histories of in-place operations before the call.",
     "test_multiple_frames_per_scan_position checks one square hand-written data set.",
     ["stempy/image.cpp", "python/image.cpp", "python/stempy/image/__init__.py"],
     [("createSTEMImages over sparse events", "stempy/image.cpp calculateSTEMValuesSparse"),
      ("dispatch over input kinds", "python/stempy/image/__init__.py create_stem_images")],
     ["stempy.image.create_stem_images"])

prop("C12", "Radial sums, averages, maxima and histograms account for every pixel",
     "radial_sum() distributes each frame over rings around the centre so that every pixel is counted in exactly one ring, namely the smallest integer radius not less than its distance; calculate_average() is the mean frame; maximum_diffraction_pattern() is the pixelwise maximum over all frames, minus the dark reference when one is given. create_stem_histogram() counts every scan position of every STEM image in exactly one of the requested equal-width bins between that image's minimum and maximum.",
     ["inputs", "configurations"],
     "All frame and scan shapes, pixel values, centres, bin counts, data orders and readers.",
     "The tests of these functions need a download and check one data set each.",
     ["stempy/image.cpp", "stempy/image.h", "python/image.cpp", "python/stempy/image/__init__.py"],
     [("radialSum, calculateAverage, maximumDiffractionPattern, createSTEMHistogram, getContainer", "stempy/image.cpp")],
     ["stempy.image.radial_sum / calculate_average / maximum_diffraction_pattern / create_stem_histogram"])

prop("C13", "Indexing a SparseArray equals indexing its dense expansion",
     "For every index that the array accepts (integers, negative integers, slices with steps, index lists, boolean masks over scan or frame positions, and their combinations), indexing the sparse array and expanding the result gives the same values and shape as indexing its dense expansion with numpy, whether slicing returns sparse or dense results. Indexing never modifies the array it is applied to, and the result shares no data with it; an index numpy would refuse is refused too (combinations for which numpy moves the indexed axes to the front are outside), and a full expansion that has not been allowed is denied.",
     ["inputs", "histories"],
     "All arrays (3D and 4D, one or several frames per position, empty frames, non-square shapes) and index expressions.",
     "The slicing test needs a downloaded file and checks a fixed list of indices on one array.",
     ["python/stempy/io/sparse_array.py"],
     [("splitting an index into scan and frame parts", "python/stempy/io/sparse_array.py _split_slices"),
      ("_slice_sparse / _slice_dense / _expand", "python/stempy/io/sparse_array.py")],
     ["SparseArray.__getitem__, SparseArray.to_dense"])

prop("C14", "SparseArray reductions equal numpy reductions of the dense expansion",
     "sum, mean, min and max over any axis or combination of axes (numbers, negative numbers, tuples in any order, 'scan', 'frame', or all axes) return the value, shape and requested type that numpy gives for the dense expansion, for every array, including positions without events, several frames per position and floating-point result types. They leave the array unchanged, and a reduction that needs a full expansion is denied unless expansion is allowed.",
     ["inputs"],
     "All arrays (3D and 4D, empty frames, repeated events across frames, non-square shapes), axes, operations and dtypes.",
     "The arithmetic test needs a downloaded file and checks one array without empty positions.",
     ["python/stempy/io/sparse_array.py"],
     [("specialised reductions and the full-expansion fallback", "python/stempy/io/sparse_array.py max/min/sum/mean, _format_axis, _default_full_expansion")],
     ["SparseArray.sum / mean / min / max"])

prop("C15", "Binning and reshaping a SparseArray conserve every electron",
     "After any sequence of bin_scans, bin_frames, reshape, shape assignment and ravel_scans, in place or copying, the array's dense expansion equals the one obtained by applying the same operations (block sums, reshapes) to the dense expansion of the original, and the total number of events is unchanged. No single event list holds a pixel twice, copies leave the original untouched, and a factor or shape that does not fit is refused with ValueError leaving the array as it was.",
     ["histories", "inputs"],
     "All sequences of operations on all arrays (non-square scans and frames, one or two scan dimensions, several frames per position, empty frames).",
     "The binning test needs a downloaded file and checks single operations on one square array.",
     ["python/stempy/io/sparse_array.py"],
     [("bin_scans, bin_frames, reshape, ravel_scans", "python/stempy/io/sparse_array.py"),
      ("duplicates moved to additional frames", "python/stempy/io/sparse_array.py bin_frames")],
     ["SparseArray after each operation"])

prop("C16", "Electron-counted data survives being saved and loaded",
     "Saving a SparseArray with two scan dimensions to HDF5 and loading it gives the same events in the same frames of the same positions, the same scan shape and frame shape, and the same (nested) metadata; loading with the flyback column dropped equals removing the last column of every scan row, keeping all frames of the positions that remain. Files of older versions (one list per position possibly with repeated pixels; lists with explicit scan positions) load to the array with the same dense content.",
     ["inputs", "histories"],
     "All arrays (non-square shapes, several frames per position, empty lists, all lists of equal length, integer types), metadata trees, file versions 1 to 3 and scan-position orders.",
     "The format-conversion tests need downloaded files; offline tests never write or read counted data.",
     ["python/stempy/io/sparse_array.py", "python/stempy/io/compatibility.py", "python/stempy/io/__init__.py"],
     [("write_to_hdf5 / from_hdf5", "python/stempy/io/sparse_array.py"),
      ("convert_data_format", "python/stempy/io/compatibility.py"),
      ("flyback cropping", "python/stempy/io/sparse_array.py from_hdf5")],
     ["io.save_electron_counts, io.load_electron_counts, SparseArray.from_hdf5"])

prop("C17", "Center of mass of sparse data equals that of the dense frames",
     "com_sparse(), in either algorithm version, gives at each scan position the mean column (first) and mean row (second) of all events there; with crop_to, of the events within that distance of the full-frame center of mass or of the (row, column) init_center. Positions without counts are NaN, or the mean over the other positions when NaNs are replaced; without cropping the result agrees with com_dense() of the expanded frames, for square and non-square frames and any integer event type.",
     ["inputs", "configurations"],
     "All arrays (shapes, frames per position, empty positions, event dtypes), crop radii, initial centers, and both algorithm versions.",
     "The offline tests check one centered synthetic square data set with two algorithm versions; the others need downloads.",
     ["python/stempy/image/__init__.py"],
     [("_com_sparse_v0, _com_sparse_v1, com_v1_kernel, com_dense", "python/stempy/image/__init__.py")],
     ["stempy.image.com_sparse, stempy.image.com_dense"])

prop("C18", "Virtual detectors on sparse data agree with the dense frames",
     "virtual_darkfield() counts at each scan position the events strictly within each aperture's radius of its center (x along the columns, y along the rows), summed over apertures; mask_real_space() and calculate_sum_sparse() give the sum diffraction pattern of the selected positions; radial_sum_sparse() gives at each scan position the number of events in each unit-wide ring [k, k+1) around a (row, column) center (whether the last ring includes its outer edge is left open). Each equals the same computation on the dense expansion, for all scan and frame shapes, event types and frames per position, and none modifies its input.",
     ["inputs"],
     "All arrays (non-square scans and frames, several frames per position, event dtypes), centers, radii, masks.",
     "test_radial_sum_sparse checks one synthetic square array; the other functions have no offline test.",
     ["python/stempy/image/__init__.py"],
     [("virtual_darkfield, mask_real_space, calculate_sum_sparse, radial_sum_sparse", "python/stempy/image/__init__.py")],
     ["the functions' results"])

prop("C19", "Phase reconstruction inverts the gradient; bad-sector repair is local",
     "phase_from_com() returns the real image, defined up to a constant and of the scan's shape, whose discrete Fourier gradient is the (rotated and, if asked, flipped) center-of-mass field when that field is a gradient; it is linear in the field and independent of any constant offset in it. filter_bad_sectors() leaves every position within the cut-offs unchanged and replaces every other position by the median of the good values in its 3x3 neighbourhood, also at the edges of the scan (neighbours that are bad as well may take part once they are repaired).",
     ["inputs"],
     "All scan shapes (odd, even, non-square), fields, rotation angles, flips, and patterns of bad positions including edges and corners.",
     "test_simple-style tests do not cover these functions offline; the networked ones check array shapes.",
     ["python/stempy/image/__init__.py"],
     [("phase_from_com, filter_bad_sectors", "python/stempy/image/__init__.py")],
     ["the functions' results"])

prop("C20", "Scan lookup returns the one matching file or refuses",
     "get_scan_path() returns the only file in the directory whose name carries exactly the requested scan id (or scan number, with the threshold when given) and the requested suffix, in either file naming scheme, together with the scan number and id stated in its name; files for other scans, other suffixes or other formats never match. Names of the newer scheme take precedence unless a version is given. When several files of the scheme match it raises ValueError, when none does FileNotFoundError.",
     ["inputs", "configurations"],
     "All directory contents: both naming schemes, ids that are prefixes of one another, suffixes, thresholds, unrelated files; all combinations of lookup arguments.",
     "The tests of these functions use a few fixed directories with one candidate each.",
     ["python/stempy/contrib/__init__.py"],
     [("glob patterns and name parsing", "python/stempy/contrib/__init__.py get_scan_path_version_0/1")],
     ["stempy.contrib.get_scan_path"])

prop("C21", "Results do not depend on the memory layout or integer type of input arrays",
     "Functions that take numpy arrays (raw frames, dark references, gains, event lists, scan positions, HDF5 data sets) give the same result for arrays holding the same values whether they are C-ordered, Fortran-ordered, strided, reversed, read-only or of another integer type that holds the values. The input arrays are never modified.",
     ["inputs", "configurations"],
     "All memory layouts and sufficient integer types of each array argument of the readers and of the imaging and counting functions.",
     "Every test passes freshly allocated C-ordered arrays.",
     ["python/pyreader.cpp", "python/image.cpp", "python/io.cpp", "python/stempy/image/__init__.py"],
     [("array conversion in the bindings", "python/image.cpp py::array_t arguments, python/pyreader.cpp PyReader")],
     ["results of PyReader, create_stem_images, electron_count with layout variants"])

prop("C22", "Pipeline decorators describe and bind parameters faithfully",
     "A function decorated with any stack of parameter() and one pipeline() exposes name, description, input, output, aggregation and all its parameters with type, label, description and default, and calling it passes every keyword given and the declared default for every parameter not given. Decorated functions do not influence one another.",
     ["programs"],
     "All stacks of decorators, parameter names, defaults and call keyword subsets.",
     "No test covers the pipeline decorators.",
     ["python/stempy/pipeline/__init__.py"],
     [("pipeline, parameter, _ensure_parameters", "python/stempy/pipeline/__init__.py")],
     ["attributes of decorated functions, arguments received"])

prop("C23", "The HDF5 layer stores and returns exactly the data and attributes it was given",
     "H5ReadWrite, through which raw data, averages and images reach HDF5 files, returns for every data set, attribute and group what was last stored under that path, in the file it wrote as well as after closing and reopening it and for any other HDF5 library: all elements, the dimensions, the numeric type, strings of any length, and the names of all children. Partial updates change the selected block only; strided reads return the selected elements only. What is not there, has another type, or does not fit is refused without writing outside of the given memory or changing the file.",
     ["inputs", "histories"],
     "All histories of opening, closing, creating groups and data sets (also chunked), writing, updating blocks, setting attributes and reading, over all numeric types, shapes, path spellings, names and values, and files written by other libraries (soft links, foreign types, empty strings).",
     "No test runs this layer; the Python code mostly uses h5py.",
     ["h5cpp/h5readwrite.cpp", "h5cpp/h5readwrite.h", "h5cpp/h5typemaps.h"],
     [("typed read, write and update of data sets and blocks", "h5cpp/h5readwrite.cpp H5ReadWrite::Impl"),
      ("attributes and strings", "h5cpp/h5readwrite.cpp setAttribute, attribute")],
     ["h5::H5ReadWrite from C++; the files through h5py"])

prop("C24", "A saving function that returns without an error has stored everything",
     "Functions which store data (write_hdf5 and to_hdf5 of readers, save_raw_data, save_stem_images, save_electron_counts, SparseArray.write_to_hdf5) either store all of it, so that it can be read back equal to what was given, or report a failure. This holds when the disk is full, writes fail or are partial at any point, and for paths that cannot be written. Interrupted and partial writes are no failures.",
     ["inputs", "fault_sequences"],
     "All data sets and arrays, formats, contents of the file before, and every position, kind and duration of a write error or limit of the file size.",
     "No test stores data under faults; those which store data have all the room they need.",
     ["stempy/reader.cpp", "h5cpp/h5readwrite.cpp", "python/stempy/io/__init__.py", "python/stempy/io/sparse_array.py"],
     [("export of reader data with results of the HDF5 layer checked", "stempy/reader.cpp SectorStreamReader::toHdf5FrameFormat, toHdf5DataCubeFormat"),
      ("saving of counted and raw data", "python/stempy/io/__init__.py save_electron_counts, save_raw_data, save_stem_images")],
     ["return or exception of the saving functions, and the file read back with h5py or stempy"])

prop("C25", "Read errors are never mistaken for the end of the data, or for data",
     "When the operating system reports an error while raw files or HDF5 files are read, the operation raises; it neither delivers fewer frames, partial results or other values as if the data ended there, nor does it hang. What was delivered before the error is correct. Partial and interrupted reads change nothing. Once the errors are over, the same reader, reset where it offers that, gives the results of the data again.",
     ["inputs", "fault_sequences", "schedules"],
     "All raw and HDF5 data sets, readers and functions that read them, numbers of threads, and every position, kind and duration of read errors.",
     "No test runs with failing reads.",
     ["stempy/reader.cpp", "stempy/reader.h", "stempy/electron.cpp", "python/stempy/io/__init__.py"],
     [("stream reads and end-of-file detection", "stempy/reader.cpp read, StreamReader::atEnd, SectorStreamThreadedReader::nextStream"),
      ("loading of counted data", "python/stempy/io/sparse_array.py from_hdf5")],
     ["results and exceptions of iteration, counting, images, exports and loading"])

prop("C26", "Arguments that do not fit the data are refused, not used beyond their end",
     "Arguments that do not fit the data raise an exception: more lists of events than scan positions (or no scan dimensions), events outside of the frame, dark references and gains of more than one element with another number of pixels than the frames (for the maximum diffraction pattern: of another shape), inner and outer radii of different numbers or none, histograms of less than one bin, PyReaders with blocks of no images, fewer image numbers than images or more images than there are, image numbers outside of the scan where results are stored by position, SparseArrays of another number of lists than scan positions or of lists that hold no integers, shapes of another size and factors that do not divide the dimensions (the array keeps its shape and data), image names of another number than the images, and unknown versions and backends. No call crashes, hangs, reads or writes memory beyond an array. The same calls with arguments that fit work.",
     ["inputs"],
     "All functions of stempy.image and stempy.io that take such arguments, kinds of readers and input, positions and sizes of the misfit.",
     "The tests only pass arguments that fit.",
     ["stempy/image.h", "stempy/image.cpp", "stempy/electron.cpp", "python/image.cpp", "python/pyreader.cpp", "python/stempy/image/__init__.py", "python/stempy/io/__init__.py", "python/stempy/io/sparse_array.py"],
     [("STEM images of lists of events", "stempy/image.h createSTEMImages, calculateSTEMValuesSparse"),
      ("dark reference and gain given as arrays", "python/image.cpp calculateThresholds, electronCount, maximumDiffractionPatternPy"),
      ("image numbers against the scan", "stempy/image.cpp createSTEMImages, radialSum; stempy/electron.cpp electronCount"),
      ("blocks of a PyReader", "python/pyreader.cpp PyReader::read"),
      ("shapes and factors", "python/stempy/io/sparse_array.py _validate, reshape, bin_scans, bin_frames")],
     ["exceptions and results of the functions, in a build with AddressSanitizer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
