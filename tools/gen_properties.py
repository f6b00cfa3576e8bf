#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one call per property)."""
import json, os, sys

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


CPP = 'riptide/cpp/'
PIPE = 'riptide/pipeline/'

prop('C01', 'Native routines never misread a strided array',
     "Every routine of the native extension that reads an input array by raw address raises an error, before reading "
     "any element, when that array is not C-contiguous; it never silently reads the wrong elements. "
     "The public running-median functions accept strided arrays and hand the native code a contiguous copy of exactly the same elements.",
     ['inputs', 'programs'],
     'Every array argument of every exported native routine, for every memory layout (slices, columns, negative strides, transposes) and dtype.',
     'The tests use one column slice with one routine; the claim ranges over every routine, every argument and every layout, and a routine added or edited later is not covered by them.',
     [CPP + 'python_bindings.cpp', 'riptide/running_medians.py', 'riptide/libffa.py', 'riptide/folding.py'],
     [('contiguity assertion before the first raw pointer is taken', CPP + 'python_bindings.cpp'),
      ('contiguous copy made by the python wrapper', 'riptide/running_medians.py:running_median')],
     ['return value or ValueError of each function of the native module', 'running_median(x[:, k], w) vs running_median(x[:, k].copy(), w)'])

prop('C02', 'Native kernels never leave their buffers',
     "For every combination of arguments that the functions of the native extension accept, every element they read or write lies inside the "
     "input array, output array or scratch buffer it belongs to. Scratch memory whose size depends on the input is never placed on the stack.",
     ['inputs'],
     'All array lengths, shapes, shifts, widths, factors and period ranges accepted by the exported native routines.',
     'An out-of-bounds access is silent for most lengths; the tests use a handful of sizes and no memory checker.',
     [CPP + 'python_bindings.cpp', CPP + 'kernels.hpp', CPP + 'snr.hpp', CPP + 'downsample.hpp', CPP + 'periodogram.hpp',
      CPP + 'running_median.hpp', CPP + 'transforms.hpp', CPP + 'block.hpp'],
     [('allocation sizes and argument checks in the bindings', CPP + 'python_bindings.cpp'),
      ('loop bounds of the kernels', CPP + 'kernels.hpp'), ('clamping of the last input index', CPP + 'downsample.hpp')],
     ['process crash, corrupted heap or garbage in results of any native call'])

prop('C03', 'A periodogram holds exactly the trials it was sized for',
     "For every accepted search configuration, the number of trials for which the output arrays of a periodogram are allocated equals the number of "
     "trials the search writes, so that no entry is left uninitialised and none is written past the end. "
     "Entry k of the trial periods, of the phase bin counts and of the S/N table always describes the same trial.",
     ['inputs', 'configurations'],
     'All data lengths, sampling times, period ranges, bin ranges and width lists.',
     'The count is computed by a second, separate implementation of the search plan; a few configurations in tests cannot show that two nested loops with floating-point bounds always agree.',
     [CPP + 'periodogram.hpp', CPP + 'python_bindings.cpp'],
     [('trial count computation', CPP + 'periodogram.hpp'), ('trial loop', CPP + 'periodogram.hpp')],
     ['lengths and contents of periods / foldbins / snrs returned by a search'])

prop('C04', 'Arguments outside the documented domain are refused up front',
     "A call whose arguments lie outside the documented domain raises an error before any result is computed: searches with a non-positive sampling time or minimum period, "
     "a period range that is not increasing, fewer than two bins, a maximum bin count below the minimum, or bins finer than the sampling time; boxcar widths that are zero or not smaller than the profile, "
     "or non-positive noise; downsampling factors not above 1 or above the data length; even or too wide median windows and even minimum window sizes; non-positive or too long transform base periods; "
     "folding periods longer than the data, phase bins not longer than a sample, and sub-integration counts below 1 or above the number of periods. Arguments inside those domains are not refused.",
     ['inputs'],
     'All argument values, in particular those at and next to each boundary.',
     'Tests try a few clearly invalid values for three of these routines; the exact boundary on every parameter of every routine is untested.',
     [CPP + 'periodogram.hpp', CPP + 'snr.hpp', CPP + 'downsample.hpp', CPP + 'running_median.hpp', CPP + 'python_bindings.cpp',
      'riptide/libffa.py', 'riptide/folding.py', 'riptide/running_medians.py'],
     [('argument checks', CPP + 'periodogram.hpp'), ('argument checks', CPP + 'snr.hpp'), ('argument checks', 'riptide/folding.py:fold')],
     ['exception raised (or not) by each public function'])

prop('C05', 'Operations that return a result never modify their inputs',
     "Apart from time series methods explicitly called in-place, no public operation (searching, folding, downsampling, transforming, S/N evaluation, running median, peak finding, clustering, "
     "harmonic testing, serialising, header reading, candidate building) modifies the arrays, time series, metadata, dictionaries or configuration it is given, nor module-level tables or default argument objects.",
     ['inputs', 'histories'],
     'Every public operation, every input object and every sequence of calls sharing those objects.',
     'Aliasing bugs show only when the caller reuses its input afterwards; tests build a fresh input per call.',
     ['riptide/time_series.py', 'riptide/folding.py', 'riptide/libffa.py', 'riptide/running_medians.py', 'riptide/peak_detection.py', 'riptide/clustering.py',
      'riptide/search.py', 'riptide/candidate.py', 'riptide/metadata.py', 'riptide/serialization.py', 'riptide/reading/sigproc.py', PIPE + 'worker_pool.py', PIPE + 'harmonic_testing.py'],
     [('copy made before in-place scaling', 'riptide/folding.py:fold'), ('copy of the key database', 'riptide/reading/sigproc.py'), ('copy of the search options', PIPE + 'worker_pool.py')],
     ['input objects before and after each call'])

prop('C06', 'A time series stays self-consistent under every operation',
     "However a time series is created and whatever sequence of in-place operations is applied to it, its samples are 32-bit floats, "
     "its duration is the number of samples times the sampling time, and the duration recorded in its metadata is that same value.",
     ['histories', 'inputs'],
     'All constructors/loaders and all sequences of in-place de-reddening, normalisation and downsampling.',
     'Tests look at the data and sampling time after single operations; they never inspect dtype or the recorded duration after a sequence.',
     ['riptide/time_series.py', 'riptide/metadata.py'],
     [('constructor casts and records the duration', 'riptide/time_series.py:TimeSeries.__init__'), ('in-place branches', 'riptide/time_series.py')],
     ['TimeSeries.data.dtype, .length, .metadata["tobs"]'],
     [('recorded duration', 'value used by peak detection and candidate plots', 'metadata["tobs"]')])

prop('C07', 'In-place and copying time series operations agree',
     "De-reddening, normalising or downsampling a time series in-place leaves it with the samples, sampling time and recorded duration that the copying form of the same operation, with the same arguments, would have returned; "
     "the copying form returns a new object carrying the metadata of the original.",
     ['inputs', 'histories'],
     'All data, all arguments, each of the three operations.',
     'Tests exercise each form on one input without comparing the full state of both results.',
     ['riptide/time_series.py'],
     [('the two branches of each operation', 'riptide/time_series.py')],
     ['state of the object after the in-place call vs the returned object'])

prop('C08', 'Data are de-reddened, then normalised, then searched',
     "A search first subtracts the running median and then normalises, each exactly once and each only when requested; the samples and sampling time handed to the native search are those of the time series that is returned, "
     "and every search parameter reaches the native routine in its documented role, the width trials included. "
     "In the pipeline every trial time series is prepared once with the configured window, searched without further preparation, and candidates are folded from data prepared in the same way.",
     ['inputs', 'configurations'],
     'All option combinations, inputs and configured ranges.',
     'A swapped order or a parameter bound to the wrong slot changes S/N slightly on the strong fake pulsar of the tests and goes unnoticed.',
     ['riptide/search.py', PIPE + 'worker_pool.py', PIPE + 'pipeline.py', CPP + 'python_bindings.cpp'],
     [('preparation steps', 'riptide/search.py:ffa_search'), ('shared preparation', PIPE + 'worker_pool.py'), ('candidate preparation', PIPE + 'pipeline.py')],
     ['time series and periodogram returned by ffa_search', 'candidate profiles'])

prop('C09', 'Every reported peak is one real trial of the periodogram',
     "The S/N, frequency, period, width, duty cycle and trial indices of a reported peak all belong to one and the same (trial period, trial width) entry of the periodogram, with duty cycle = width / phase bins of that entry and period = 1 / frequency; its DM is that of the searched data. "
     "Peaks are all kept, one per cluster of significant entries per trial width, and returned in decreasing S/N order.",
     ['inputs'],
     'All periodograms and selection parameters.',
     'Tests look at the top peak of one or two inputs with rounding tolerance; index mix-ups between filtered and full arrays show on other inputs only.',
     ['riptide/peak_detection.py', 'riptide/clustering.py'],
     [('index mapping from selected points back to the periodogram', 'riptide/peak_detection.py:find_peaks_single'), ('peak construction', 'riptide/peak_detection.py:find_peaks')],
     ['list returned by find_peaks'])

prop('C10', 'Peaks exceed both thresholds and merge within the clustering radius',
     "For every trial width, a trial counts as significant if and only if its S/N is strictly above both the static minimum and the dynamic threshold of that width at its frequency, the dynamic threshold being the polynomial in log-frequency fitted to median + n x (interquartile range / 1.349) of the S/N in frequency segments, or the static minimum when there are fewer segments than requested. "
     "Significant trials whose neighbours in frequency are within the clustering radius divided by the observation length form one peak, represented by the brightest.",
     ['inputs', 'configurations'],
     'All S/N arrays, observation lengths and selection parameters.',
     'Boundary comparisons and the unit of the radius only matter for inputs with neighbouring peaks or S/N near threshold, which the tests do not contain.',
     ['riptide/peak_detection.py'],
     [('threshold mask and clustering call', 'riptide/peak_detection.py:find_peaks_single'), ('segment statistics', 'riptide/peak_detection.py:segment_stats')],
     ['list returned by find_peaks'])

prop('C11', 'One-dimensional clustering partitions its input',
     "Clustering a set of values returns groups of positions in the original input such that every position belongs to exactly one group. "
     "Two values adjacent in sorted order are in the same group if and only if they differ by at most the radius, whether the input was given unsorted, increasing or decreasing.",
     ['inputs'],
     'All finite arrays (including empty and single-element), all radii, both sortedness flags.',
     'No test calls the clustering function directly; its use in the pipeline tests yields one cluster.',
     ['riptide/clustering.py'],
     [('sorting, breaks and slicing', 'riptide/clustering.py:cluster1d')],
     ['clusters used by peak finding, the pipeline and rseek'])

prop('C12', 'Harmonic flagging always points to a brighter true fundamental',
     "Clusters are ranked by decreasing S/N from 0, and a cluster is flagged as a harmonic only when the pairwise test accepts it against a brighter cluster that is itself not flagged; the first such cluster in rank order becomes its parent, together with the frequency ratio found by that test, and is never replaced. "
     "Every pair of unflagged clusters is tested once, the brighter as the fundamental.",
     ['inputs', 'histories'],
     'All sets of clusters and configured tolerances.',
     'The pipeline tests contain one pulsar; chains of harmonics (a harmonic of a harmonic) do not occur.',
     [PIPE + 'pipeline.py', PIPE + 'peak_cluster.py'],
     [('pair loop over clusters sorted by S/N', PIPE + 'pipeline.py:Pipeline.flag_harmonics'), ('harmonic state of a cluster', PIPE + 'peak_cluster.py')],
     ['rank, hfrac and fundamental_rank columns of clusters.csv', 'candidates kept when harmonics are removed'])

prop('C13', 'Candidate filters keep exactly the clusters the configuration asks for',
     "When set, the DM and S/N filters keep the clusters whose centre is at or above the threshold; harmonic removal drops exactly the flagged clusters, and only when enabled; the cap on the number of candidates is applied last and keeps the brightest of the remaining ones. "
     "A filter that is not set removes nothing.",
     ['configurations', 'inputs'],
     'All combinations of the four filters (set or null) and all cluster lists.',
     'Tests run one configuration with filters that remove nothing.',
     [PIPE + 'pipeline.py'],
     [('filter chain', PIPE + 'pipeline.py:Pipeline.apply_candidate_filters')],
     ['set of candidates written by the pipeline'])

prop('C14', 'The pipeline runs its stages in order and validates before searching',
     "The pipeline validates its configuration before anything else, and validates all search ranges against the coarsest input before any time series is searched. It then searches, clusters all peaks, flags harmonics, filters, builds candidates and saves products, in that order, each stage consuming the full output of the previous one. "
     "Ranges too fine for the coarsest data, candidate folds too fine for it, and ranges that do not connect end to end are rejected.",
     ['configurations', 'histories'],
     'All configurations, range lists and input sets.',
     'The order of stages only matters for inputs with low-DM fundamentals or invalid ranges; tests contain neither.',
     [PIPE + 'pipeline.py', PIPE + 'config_validation.py'],
     [('stage sequence', PIPE + 'pipeline.py:Pipeline.process'), ('range validation', PIPE + 'config_validation.py:validate_ranges')],
     ['InvalidSearchRange / InvalidPipelineConfig raised before searching', 'data products'])

prop('C15', 'Every selected DM trial is processed exactly once',
     "The DM trials handed to the search are distinct available trials within the requested DM range (capped by the DM sin|b| limit when one is set), the lowest one in range included, and each selected trial is handed out exactly once, in chunks of the requested size with a final shorter chunk when needed. "
     "The file searched for a trial, and later reloaded to fold its candidates, is the file whose header carries that DM.",
     ['inputs', 'configurations'],
     'All sets of input files, DM limits, sky positions and process counts.',
     'Tests use 3 DM trials and one chunk size; a dropped last chunk or a wrong file lookup depends on counts they never reach.',
     [PIPE + 'dmiter.py', PIPE + 'pipeline.py'],
     [('range limits', PIPE + 'dmiter.py:DMIterator.__init__'), ('selection', PIPE + 'dmiter.py:select_dms'), ('chunking', PIPE + 'dmiter.py:DMIterator.iterate_filenames')],
     ['files opened by the workers', 'dm column of peaks.csv'])

prop('C16', 'Search results do not depend on the number of processes',
     "The peaks found in a list of files are the concatenation, in file order and then configured range order, of all peaks of every file and range, whatever the number of worker processes and however they are scheduled. "
     "Workers share no mutable state, use no randomness or clock in results, never write to files, and the pool is closed and joined before its results are used.",
     ['schedules', 'configurations'],
     'All schedules of worker processes, all process counts and file lists.',
     'Races and result-order effects appear only under particular schedules; tests use few files and look at the brightest candidate.',
     [PIPE + 'worker_pool.py', PIPE + 'pipeline.py'],
     [('order-preserving map over files', PIPE + 'worker_pool.py:WorkerPool.process_fname_list'), ('per-file work', PIPE + 'worker_pool.py:WorkerPool.process_fname')],
     ['peaks.csv for different process counts'])

prop('C17', 'Every accepted configuration can be run',
     "Every configuration entry that the pipeline reads is required by validation, every search, peak-finding and harmonic option that validation accepts is a parameter of the routine it is forwarded to, and entries that validation lets be null are only used where null is handled. "
     "Values are coerced and bounded by validation as its error messages state, and unknown entries are rejected.",
     ['configurations'],
     'All configuration dictionaries accepted by the validator.',
     'Tests validate two files; the space of accepted configurations (optional keys, nulls) is not enumerated.',
     [PIPE + 'config_validation.py', PIPE + 'pipeline.py', PIPE + 'worker_pool.py', 'riptide/search.py', 'riptide/peak_detection.py', PIPE + 'harmonic_testing.py'],
     [('schema', PIPE + 'config_validation.py'), ('configuration reads', PIPE + 'pipeline.py')],
     ['KeyError / TypeError late in a run'])

prop('C18', 'Every documented parameter and command-line option has its effect',
     "Each parameter of the public search, folding, S/N, running-median, signal-generation and peak-finding functions influences their result in its documented role, including the cap that the minimum number of periods places on the maximum period searched. "
     "Each option of both command-line programs is delivered, with the type its destination needs, to the search or output stage it documents, and defaults are the documented ones.",
     ['inputs', 'configurations'],
     'All parameters and command-line options, all values.',
     'An ignored or mistyped option is invisible to tests that use its default value.',
     ['riptide/search.py', 'riptide/apps/rseek.py', PIPE + 'pipeline.py', 'riptide/folding.py', 'riptide/peak_detection.py', 'riptide/libffa.py', 'riptide/running_medians.py', 'riptide/time_series.py'],
     [('parameter forwarding', 'riptide/search.py:ffa_search'), ('argument parser and its consumer', 'riptide/apps/rseek.py')],
     ['result of the call or program with the option changed'])

prop('C19', 'The pipeline saves every result it found, once, under its own name',
     "After a run, the peak table has one row per peak, the cluster table one row per cluster and the candidate table one row per candidate, in the documented columns; each candidate is written to its own JSON file numbered by decreasing S/N, plus a plot of the same number if and only if plotting is enabled. "
     "Products go to the requested directory, and one candidate that cannot be built does not lose the others.",
     ['inputs', 'fault_sequences'],
     'All result sets, output directories, plot settings and individual candidate failures.',
     'Tests check that files exist for one pulsar; collisions and lost results need several candidates or a failing one.',
     [PIPE + 'pipeline.py', PIPE + 'peak_cluster.py', 'riptide/peak_detection.py', 'riptide/candidate.py'],
     [('product writing', PIPE + 'pipeline.py:Pipeline.save_products'), ('candidate writer', PIPE + 'pipeline.py:CandidateWriter'), ('failure isolation', PIPE + 'pipeline.py:Pipeline.build_candidates')],
     ['files in the output directory'])

prop('C20', 'Saved objects are loaded back from the same fields',
     "For every kind of object the library can save, every field the writer emits is read back by the loader into the same place, with the same array type and shape, coordinate frame and units, table columns and object version; nothing the loader needs is omitted by the writer. "
     "Arrays in a loaded object are writable, as in the original, and file and string forms use the same encoding.",
     ['inputs', 'histories'],
     'All time series, periodograms, candidates, metadata and containers of them.',
     'The round-trip tests compare a few attributes of two objects; a field dropped or crossed between writer and loader elsewhere stays hidden.',
     ['riptide/serialization.py', 'riptide/time_series.py', 'riptide/periodogram.py', 'riptide/candidate.py', 'riptide/metadata.py'],
     [('encoder', 'riptide/serialization.py'), ('decoder', 'riptide/serialization.py:object_hook'), ('to_dict / from_dict pairs', 'riptide/*.py')],
     ['load_json(save_json(x))'])

prop('C21', 'SIGPROC files are decoded by the declared header',
     "Each header value is read with the byte width of its declared type and stored under its own name, unknown keys are refused, and reading starts at the header start flag and stops at the end flag; user-supplied key types apply to that file only. "
     "Samples are read starting exactly after the header, as 32-bit floats or as 8-bit integers of the declared signedness; multi-channel data, other bit depths and 8-bit data of unknown signedness are refused, and the sample count and coordinates follow from the header values.",
     ['inputs', 'histories'],
     'All headers (any subset and order of keys, any extra keys), bit depths and file sizes.',
     'Tests read three small files with the same set of keys.',
     ['riptide/reading/sigproc.py', 'riptide/metadata.py', 'riptide/time_series.py'],
     [('header reader', 'riptide/reading/sigproc.py:read_attribute'), ('data type checks', 'riptide/metadata.py:Metadata.from_sigproc'), ('data loading', 'riptide/time_series.py:TimeSeries.from_sigproc')],
     ['time series returned by TimeSeries.from_sigproc'])

prop('C22', 'PRESTO headers map every line to the right field',
     "Each line of a PRESTO header ends up in the field it describes, with the type of that field, for radio, X-ray and gamma data and for any number of on/off bin pairs; other bands, artificial data and lines without the separator in its column are refused. "
     "Samples are read as 32-bit floats from the data file next to the header, and a high-energy band triggers a warning.",
     ['inputs'],
     'All .inf files: any band, any number of on/off pairs, any values.',
     'Tests read two or three generated files without data breaks.',
     ['riptide/reading/presto.py', 'riptide/metadata.py', 'riptide/time_series.py'],
     [('line to field mapping', 'riptide/reading/presto.py:inf2dict'), ('data file', 'riptide/reading/presto.py:PrestoInf'), ('warning', 'riptide/time_series.py:TimeSeries.from_presto_inf')],
     ['Metadata and TimeSeries loaded from .inf files'])

prop('C23', 'Metadata always carries its reserved fields, validated',
     "Every metadata object contains the source name, sky position, DM, epoch, observation length and file name entries, set to null when unknown; when given, they have the documented type and a valid value, otherwise construction fails. "
     "Loaders fill DM, epoch, position, observation length and absolute file name from the header of the file they were given.",
     ['inputs'],
     'All item dictionaries and all supported files.',
     'Tests never pass invalid values, and look at few of the entries.',
     ['riptide/metadata.py'],
     [('schema', 'riptide/metadata.py'), ('constructor', 'riptide/metadata.py:Metadata.__init__'), ('loaders', 'riptide/metadata.py')],
     ['Metadata objects of loaded and derived data'])

prop('C24', 'Trial periods and sums keep double precision where it matters',
     "Trial periods and frequencies are computed and stored in double precision from the native search to the reported peaks. The search plan (numbers of cycles, bins, samples and trials) and the positions of samples and rows that downsampling and the transform derive from real-valued factors are evaluated in double precision. "
     "Mean and variance used for normalisation and the prefix sum behind every S/N are accumulated in double precision, and neither the build options of the extension nor its sources enable the optimisations (fast-math, unsafe or reciprocal math) that the project rules out because they change those sizes.",
     ['inputs'],
     'All data lengths and magnitudes.',
     'Loss of precision only shows for hours-long data or large offsets; test data are short and have zero mean.',
     [CPP + 'periodogram.hpp', CPP + 'kernels.hpp', CPP + 'python_bindings.cpp', 'riptide/time_series.py', 'riptide/peak_detection.py', 'riptide/libffa.py'],
     [('double typed periods', CPP + 'periodogram.hpp'), ('double accumulator', CPP + 'kernels.hpp'), ('float64 statistics', 'riptide/time_series.py:TimeSeries.normalise')],
     ['periods of a long search', 'S/N on data with large offsets'])

prop('C25', 'Trial period and S/N formulas are those documented',
     "The trial period written for shift s of a fold of m periods with p bins at sampling time t is t p^2 / (p - s/(m-1)), the reciprocal of the trial frequency that the frequency helper returns for the same transform. "
     "The S/N of a profile for width w is the largest response, over all starting bins with wrap-around, of a boxcar with zero mean and unit square sum, divided by the noise level, and the noise level used by the search is that of the number of folded periods times the variance after downsampling.",
     ['inputs'],
     'All transform sizes, shifts, widths, profiles and noise levels.',
     'Tests compare a handful of profiles and check trial frequencies for a few sizes only; formulas in the native search are not compared with the helpers.',
     [CPP + 'periodogram.hpp', CPP + 'snr.hpp', CPP + 'kernels.hpp', CPP + 'downsample.hpp', 'riptide/libffa.py'],
     [('trial period expression', CPP + 'periodogram.hpp'), ('boxcar response', CPP + 'snr.hpp'), ('trial frequencies', 'riptide/libffa.py:ffafreq')],
     ['periods and S/N of a search'])

prop('C26', 'Folding uses every full period and yields the documented shape',
     "Folding groups consecutive samples into phase bins of period/bins seconds, uses every complete period and drops only the incomplete last one, and scales the result for unit noise. "
     "One sub-integration (or a single period) gives a 1-D profile with the requested number of bins; no requested number gives one row per period, and any other number gives exactly that many rows; a candidate that asks for more sub-integrations than fit is folded with one row per period.",
     ['inputs', 'configurations'],
     'All periods, bin counts, sub-integration counts and data lengths.',
     'Tests fold with one or two settings and check shapes only.',
     ['riptide/folding.py', 'riptide/candidate.py'],
     [('reshape and scaling', 'riptide/folding.py:fold'), ('vertical downsampling', 'riptide/folding.py:downsample_vertical'), ('fallback', 'riptide/candidate.py:Candidate.from_pipeline_output')],
     ['array returned by TimeSeries.fold', 'Candidate.subints'])

prop('C27', 'Successive runs of a pipeline object do not mix results',
     "Running the same pipeline object again produces results that depend only on the files of that run: no peaks, clusters, filtered clusters or candidates of an earlier run remain, also when the later run finds nothing. "
     "Nothing computed in one run is kept in shared class-level or module-level state.",
     ['histories'],
     'All sequences of runs with one pipeline object, including runs that find no peaks.',
     'Every test creates a new pipeline object and runs it once.',
     [PIPE + 'pipeline.py', PIPE + 'worker_pool.py', PIPE + 'dmiter.py', PIPE + 'peak_cluster.py'],
     [('result attributes', PIPE + 'pipeline.py:Pipeline')],
     ['products of a second run'],
     [('peaks, clusters, clusters_filtered, candidates', 'results of the current run', PIPE + 'pipeline.py:Pipeline')])

prop('C28', 'Failures are never silently swallowed',
     "An error while reading a file, preparing or searching a DM trial, validating the configuration or writing a product stops the run with an exception. "
     "The only errors that are absorbed are a failure to build one candidate (logged with its traceback), band parameters missing from the headers when all of them were given manually, and the end of the on/off pair list in a PRESTO header.",
     ['fault_sequences', 'inputs'],
     'All places where an exception may be raised.',
     'Tests do not inject failures.',
     ['riptide/pipeline/pipeline.py', 'riptide/pipeline/worker_pool.py', 'riptide/pipeline/dmiter.py', 'riptide/reading/presto.py', 'riptide/serialization.py', 'riptide/apps/rseek.py'],
     [('exception handlers', 'riptide/**/*.py')],
     ['exception or exit status of a run with a bad input'])

prop('C29', 'The harmonic test compares the documented distances',
     "Two candidates are reported as harmonically related if and only if the phase drift between the faster one and the closest fraction (of bounded denominator) of the slower one, in units of the faster one's duty cycle, the difference of dispersion delays in units of the smaller pulse width, and the difference between the fainter S/N and the S/N expected of that harmonic are all at most their configured maxima. "
     "The fraction reported is the frequency of the second candidate over that of the first, whichever is faster.",
     ['inputs', 'configurations'],
     'All pairs of candidate parameters and tolerances.',
     'No test exercises the harmonic test directly.',
     [PIPE + 'harmonic_testing.py'],
     [('diagnostic values', PIPE + 'harmonic_testing.py:hdiag'), ('decision', PIPE + 'harmonic_testing.py:htest')],
     ['return value of the harmonic test', 'harmonic columns of clusters.csv'])

prop('C30', 'Width trials start at one bin and grow up to the maximum duty cycle',
     "The trial widths of a search are strictly increasing integers starting at 1, each the larger of the previous plus one and the previous times the spacing factor (rounded down). "
     "They include every value of that sequence not exceeding the maximum duty cycle times the minimum number of bins, and no larger one (except 1).",
     ['inputs', 'configurations'],
     'All bin counts, duty cycles and spacing factors.',
     'Tests use the default parameters only.',
     ['riptide/ffautils.py', 'riptide/search.py'],
     [('width generation', 'riptide/ffautils.py:generate_width_trials')],
     ['Periodogram.widths'])

prop('C31', 'The fast running median stays aligned with the data',
     "The fast running median is the exact one when the window is at most the minimum number of points; otherwise the data are averaged in blocks whose size is the window over that number (rounded down), the exact median of that many blocks is taken, and it is interpolated linearly from block centres back to every sample, so the output has the length of the input. Output k of the exact running median is taken over the samples from k minus to k plus half a window, the first and last sample standing in for those beyond the ends. "
     "De-reddening subtracts it, with the window converted from seconds to the nearest number of samples.",
     ['inputs'],
     'All data lengths, window sizes and minimum point counts.',
     'Tests compare lengths and one factor; a shift of the interpolation grid by half a block is not visible on noise.',
     ['riptide/running_medians.py', 'riptide/time_series.py'],
     [('block average, median, interpolation', 'riptide/running_medians.py:fast_running_median'), ('subtraction', 'riptide/time_series.py:TimeSeries.deredden')],
     ['fast_running_median output', 'TimeSeries.deredden output'])

prop('C32', 'Each candidate is folded with the settings of its own period range',
     "A candidate's bins and sub-integrations come from the search range that contains its period (lower bound included, upper bound excluded); periods below the lowest range use the first range and periods at or above the highest use the last. "
     "Its parameters are those of the brightest peak of its cluster, its data and metadata those of the DM trial of that peak, and its peak table lists all peaks of the cluster.",
     ['inputs', 'configurations'],
     'All periods, including those on range boundaries, all range lists in any order.',
     'Tests use one range.',
     [PIPE + 'pipeline.py', 'riptide/candidate.py', PIPE + 'peak_cluster.py'],
     [('range lookup', PIPE + 'pipeline.py:Pipeline.get_search_range'), ('candidate assembly', 'riptide/candidate.py:Candidate.from_pipeline_output'), ('brightest member', PIPE + 'peak_cluster.py:PeakCluster')],
     ['Candidate.subints shape, params and tsmeta'])

prop('C33', 'The transform adds every period exactly once along each drift',
     "Row s of the transform of m periods is obtained by splitting the periods into a first and second part that together contain every period exactly once, transforming each, and adding the two rows nearest to s scaled by (part rows - 1)/(m - 1), the second rotated so that the total drift is exactly s bins. "
     "The one-dimensional form applies this to all complete periods of the data, and a single period is returned unchanged.",
     ['inputs'],
     'All numbers of periods and bins, all input data.',
     'Tests compare a few small shapes with a reference.',
     [CPP + 'transforms.hpp', CPP + 'block.hpp', CPP + 'kernels.hpp', 'riptide/libffa.py'],
     [('recursive split', CPP + 'transforms.hpp'), ('merge', CPP + 'transforms.hpp'), ('row addressing', CPP + 'block.hpp'), ('rotation and addition', CPP + 'kernels.hpp')],
     ['ffa1 / ffa2 output'])

prop('C34', 'Downsampling shares every input sample exactly once',
     "Downsampling by a real factor f gives floor(N/f) samples; output sample k is the weighted sum of the input samples overlapping the interval from k f to (k+1) f, each weighted by the length of the overlap, so that an input sample cut by a boundary is shared between its two neighbours with weights adding up to 1.",
     ['inputs'],
     'All lengths N and factors f with 1 < f <= N.',
     'Tests use two factors and check sizes or totals.',
     [CPP + 'downsample.hpp', CPP + 'python_bindings.cpp'],
     [('index and weight computation', CPP + 'downsample.hpp')],
     ['downsample output'])

# ---- stated, but out of reach of static analysis (see MANIFEST not_applicable) ----
prop('C80', 'The median selection is exact',
     "For every content of the window, the in-place selection used by the running median returns the value that sorting the window would put in its middle.",
     ['inputs'], 'All data and odd windows.', 'Tests compare a few windows.',
     [CPP + 'running_median.hpp'], [('quickselect on a ring buffer', CPP + 'running_median.hpp')], ['running_median output'])
prop('C81', 'A pulsar above the threshold is found',
     "A periodic signal inside the searched period and DM range whose S/N clearly exceeds the selection threshold is reported among the candidates, at its true period within the trial resolution.",
     ['inputs'], 'All signals, noise realisations and configurations.', 'Tests inject one bright fake pulsar.',
     ['riptide/search.py', 'riptide/peak_detection.py', PIPE + 'pipeline.py'], [('whole search', 'riptide/search.py')], ['candidates of a run'])
prop('C82', 'Saved values are equal after reloading',
     "Every number, array, table and coordinate of a saved object compares equal to the original after loading, for all values including NaN and infinity, integer and boolean columns.",
     ['inputs'], 'All values.', 'Tests compare two objects.',
     ['riptide/serialization.py'], [('encoder and decoder', 'riptide/serialization.py')], ['load_json(save_json(x))'])
prop('C83', 'The DM selection is a minimal cover',
     "The selected DM trials cover the requested range such that no DM in range is further from a selected trial than its coverage radius, whenever the available trials allow it, and no smaller subset does.",
     ['inputs'], 'All sets of trial DMs and observing setups.', 'Tests use three trials.',
     [PIPE + 'dmiter.py'], [('greedy selection', PIPE + 'dmiter.py:select_dms')], ['selected DMs'])
prop('C84', 'An interrupted run leaves no half-written product',
     "If the process is killed while products are written, every product file present is either complete or absent.",
     ['crash_points'], 'All kill points.', 'No test kills the process.',
     [PIPE + 'pipeline.py', 'riptide/serialization.py'], [('file writing', 'riptide/serialization.py:save_json')], ['output directory'])
prop('C85', 'S/N of pure noise follows the unit normal distribution',
     "For white noise input the S/N values of every width trial have zero mean and unit variance before maximisation over phase, for every downsampling factor used by a search.",
     ['inputs'], 'All noise realisations and factors.', 'Statistical property.',
     [CPP + 'downsample.hpp', CPP + 'snr.hpp'], [('noise variance after downsampling', CPP + 'downsample.hpp')], ['periodogram S/N'])

with open(OUT, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
