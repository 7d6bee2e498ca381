"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run tools/gen.py)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": anchors})


Q = "quakemigrate/"

P("C01", "Migration stacks exactly the traveltime-shifted onset functions",
  "For every grid node and output sample, the computed coalescence is the geometric mean of the onset functions (each "
  "clipped below at 0.01) read at that output sample plus the node's integer traveltime for that station-phase, over "
  "exactly the window left after removing the leading and trailing pad. The result does not depend on the number of "
  "threads, on the order in which station-phases are listed, or on the content of samples outside the window that is "
  "addressed, no memory outside the arrays is read or written, and mismatched inputs are rejected with an error rather "
  "than migrated.",
  ["inputs", "schedules", "configurations"],
  "all onset arrays, traveltime grids (any shape, incl. negative/zero traveltimes), pads, station counts and thread counts",
  "The suite has no test of the migration kernel (the example benchmarks need downloaded data and cannot run here); "
  "any test samples single shapes and one thread count.",
  [Q + "core/lib.py", Q + "core/src/migratelib.c", Q + "core/src/qmlib.h", Q + "signal/scan.py"],
  [("log/clip of onsets and argument validation", Q + "core/lib.py migrate()"),
   ("parallel shift-and-stack loop", Q + "core/src/migratelib.c migrate()")],
  ["quakemigrate.core.migrate return value"])

P("C02", "Peak coalescence, its location and normalised value are exact",
  "For every 4-D coalescence map and every sample, the reported maximum is the largest value over the grid, the "
  "reported location is a node that attains it (the first in flat C order), and the normalised coalescence is that maximum "
  "multiplied by the number of nodes and divided by the sum over the grid, whatever the number of threads.",
  ["inputs", "schedules", "configurations"],
  "all 4-D maps (any shape, ties, any magnitude) and thread counts",
  "No unit test exercises the peak search; threads, ties, and single-node or single-sample maps are never sampled.",
  [Q + "core/lib.py", Q + "core/src/migratelib.c"],
  [("parallel max/sum reduction", Q + "core/src/migratelib.c find_max_coa()"),
   ("output allocation", Q + "core/lib.py find_max_coa()")],
  ["quakemigrate.core.find_max_coa return values"])

P("C03", "STA/LTA onset functions follow their definition",
  "For every signal and window pair, each sample of the overlapping and centred STA/LTA functions equals the ratio of the "
  "mean of the short window to the mean of the long window at the documented positions, and is exactly 1 where the windows "
  "do not fit; each sample of the recursive function equals the ratio of the two exponentially forgetting averages defined by "
  "the documented recursion, and is exactly 1 over the first long window. The result is invariant to multiplying the signal by a positive constant, is causal with "
  "respect to the documented windows, and is always finite and never NaN for non-negative signals, including stretches of "
  "zeros.",
  ["inputs", "configurations"],
  "all non-negative signals and all short/long window lengths that fit or do not fit in the signal",
  "test_onsets_simple compares one six-sample ramp; it cannot reach zero stretches, windows longer than the signal, "
  "long signals, or scaling.",
  [Q + "core/lib.py", Q + "core/src/onsetlib.c", Q + "signal/onsets/stalta.py"],
  [("running-sum kernels", Q + "core/src/onsetlib.c overlapping_sta_lta()/centred_sta_lta()"),
   ("Python wrappers", Q + "core/lib.py")],
  ["quakemigrate.core.overlapping_sta_lta / centred_sta_lta / recursive_sta_lta"])

P("C04", "Onset calculation serves one aligned onset row per available station-phase",
  "For every data window, the onset array handed to migration has exactly one row per station-phase flagged available, in "
  "the order of the availability record (phase by phase, stations in archive order), each row covering exactly the "
  "data window at the onset sampling rate, never below the documented floor. A row depends only on that station's own "
  "data for that phase: it equals the documented detrend/taper/filter/STA-LTA combination over the phase's components (also of gappy or "
  "incomplete data where these are allowed), is unchanged by other stations being absent, "
  "unavailable or reordered, and is unchanged by scaling or reversing the polarity of the waveforms.",
  ["inputs", "configurations"],
  "all station subsets, channel maps, phases, filters, window lengths, positions (classic/centred), transforms, sampling "
  "rates and availability patterns",
  "No existing test calls the onset calculation on waveform data; alignment between rows, availability and traveltimes "
  "must hold for every subset of available stations, not one.",
  [Q + "signal/onsets/stalta.py", Q + "signal/onsets/base.py"],
  [("per-phase onset loop, availability dict and stacking order", Q + "signal/onsets/stalta.py STALTAOnset.calculate_onsets()"),
   ("per-station onset", Q + "signal/onsets/stalta.py STALTAOnset._onset()"),
   ("pre-processing", Q + "signal/onsets/stalta.py pre_process()")],
  ["return value of calculate_onsets()"])

P("C05", "Station data is used exactly when it passes the configured quality checks",
  "A station's data for a phase is flagged available if and only if it meets the configured criteria: the (any or all) "
  "required channels are present, continuous unless gaps are allowed, covering the full "
  "requested timespan when full timespan is required, not a flatline, and at the required sampling rate (after resampling if "
  "allowed). A station failing the criteria never contributes to the onset functions or to the coalescence, and its "
  "failure never changes what is computed for the other stations; if no station passes, the window is reported as having no available data.",
  ["inputs", "configurations"],
  "all combinations of gaps, overlaps, short or offset data, flatlines, missing channels, sampling-rate mismatches, "
  "timespans and option settings",
  "No test covers availability decisions; the space of defects x options is combinatorial and boundary (one-sample, "
  "rounding) cases decide whether good data is used.",
  [Q + "io/data.py", Q + "signal/onsets/stalta.py"],
  [("availability decision", Q + "io/data.py WaveformData.check_availability()"),
   ("use of the flags", Q + "signal/onsets/stalta.py STALTAOnset.calculate_onsets()")],
  ["return value of check_availability(), availability in OnsetData"])

P("C06", "Reading the archive returns exactly the archived samples in the window",
  "For every archive layout and requested window (with or without extra padding, across day and year boundaries), the data read are "
  "exactly the archived samples of the requested stations inside the padded window, and the analysis data exactly those inside the "
  "window proper: no sample lost, duplicated, altered, shifted, or taken from another station. Waveforms of "
  "stations outside the station list appear only in the raw data and only if asked for, and if there is nothing to read "
  "the reader reports an empty archive or a data gap rather than returning a window without data.",
  ["inputs", "configurations"],
  "all archive formats (path structures), windows, paddings, file splits, gaps, overlaps, extra files and station lists",
  "Tests never read an archive (data must be downloaded for the examples); day boundaries, leap years and paddings "
  "are exactly what a handful of examples misses.",
  [Q + "io/data.py", Q + "util.py"],
  [("file selection", Q + "io/data.py Archive.path_structure()/_load_from_path()"),
   ("merging and trimming", Q + "io/data.py Archive.read_waveform_data()")],
  ["WaveformData.waveforms / raw_waveforms after Archive.read_waveform_data()"])

P("C07", "Sample-grid alignment and resampling keep the timing of the data",
  "Shifting to the sample grid places every trace on the requested grid, moving it by no more than half a sample and only "
  "when it was off-grid, without changing its samples (or, with interpolation, resampling the "
  "same signal). Resampling returns every trace at the target rate or drops/keeps it as configured, with "
  "samples that represent the input signal at their own timestamps, and covers the requested span; caller-owned inputs are never modified.",
  ["inputs", "configurations"],
  "all start-time offsets, sampling rates, upfactors, target rates, lengths and dtypes",
  "Only merging of two identical-rate traces is tested; timing errors of a fraction of a sample on unusual rates are "
  "invisible to example-based tests.",
  [Q + "util.py"],
  [("shift", Q + "util.py shift_to_sample()"), ("resample", Q + "util.py resample()/decimate()/upsample()")],
  ["returned Stream"])

P("C08", "Merging traces never invents, loses or overwrites data",
  "Merging a stream keeps traces of different channels apart and joins traces of the same channel that are contiguous or "
  "overlap with identical samples: every input sample is present in the merged data at its own time, where no input has data "
  "there is a gap, and overlapping segments with differing content are kept separate rather than overwritten or blended. Merging does not "
  "depend on the order of the traces, and channels whose segments are incompatible (data type or sampling rate) never affect other channels.",
  ["inputs"],
  "all collections of overlapping, contained, adjacent and gappy traces of several ids, dtypes and orders",
  "test_merge_stream uses one pair of identical traces.",
  [Q + "util.py", Q + "io/data.py"],
  [("merge by id and method -1/0/1", Q + "util.py merge_stream()")],
  ["returned Stream"])

P("C09", "Grid coordinate conversions are mutually consistent",
  "For every grid and projection, converting between node indices, projected coordinates and geographic coordinates round-trips to "
  "numerical precision, flat and multi-dimensional node indices correspond in C order, corner node 0 lies at "
  "the lower-left corner, the last node at the upper-right corner, and node spacing separates neighbours. The "
  "grid covers the requested corners: every point of the requested volume is within the grid, with at most one extra node per axis.",
  ["inputs", "configurations"],
  "all grid extents, node spacings, projections, units and indices/coordinates, scalar or vectorised",
  "No test constructs a grid; conversions are used with many shapes of argument.",
  [Q + "lut/lut.py"],
  [("index/grid/coordinate conversion", Q + "lut/lut.py Grid3D.index2coord()/index2grid()/coord2grid()"),
   ("node count and corners", Q + "lut/lut.py Grid3D.__init__()/grid_extent")],
  ["Grid3D public methods and properties"])

P("C10", "Decimating a lookup table preserves its physics",
  "For every lookup table and decimation factors, each node of the decimated table has the same geographic position and the same "
  "traveltimes as the node of the original table it was taken from, and the decimated node count and spacing are those "
  "implied by the factors with the remaining nodes centred. Decimating not in place leaves the original "
  "untouched, and in place gives the same result.",
  ["inputs", "configurations"],
  "all grid sizes, decimation factors (incl. factors not dividing the grid) and in-place or copied decimation",
  "No test decimates a table; off-centre remainders only appear for particular size/factor pairs.",
  [Q + "lut/lut.py"],
  [("node selection and corner update", Q + "lut/lut.py Grid3D.decimate()/LUT")],
  ["node positions and traveltimes of the decimated LUT"])

P("C11", "Computed traveltimes are those of the velocity model",
  "Traveltime tables built for a homogeneous model equal straight-line distance divided by velocity at every node; "
  "tables built for a 1-D model by fast marching are bounded by distance over the fastest and slowest velocities, agree with the analytic homogeneous solution within the grid error, "
  "and reduce consistently for layered models; tables interpolated from a 2-D sweep equal the sweep at the node's depth and "
  "epicentral distance. A table holds, for every station and requested phase, one array of the grid's shape, computed with that phase's velocities and that station's position.",
  ["inputs", "configurations"],
  "all station sets, grids, units, velocities/layer stacks and phase lists",
  "Traveltime computation has no test; errors in axis order, depth sign, units or phase mix-ups give plausible numbers.",
  [Q + "lut/create_lut.py", Q + "lut/lut.py"],
  [("homogeneous", Q + "lut/create_lut.py _compute_homogeneous()"),
   ("eikonal", Q + "lut/create_lut.py _compute_1d_fmm()/_eikonal_fmm()/_vmodel"),
   ("NonLinLoc sweep interpolation", Q + "lut/create_lut.py _compute_1d_nlloc()/_bilinear_interpolate()")],
  ["LUT.traveltimes / serve_traveltimes / traveltime_to"])

P("C12", "Served traveltimes match station-phases and sampling rate, and survive saving",
  "Traveltimes served for migration are, for each station-phase flagged available and in exactly that order, the table's traveltimes "
  "rounded to the nearest sample at the requested rate; a traveltime requested at a node is the table's value there. "
  "Writing a table to file and reading it back gives an equal table, tables compare equal exactly when their grid definitions (corners, "
  "node spacing, projections) are equal, and combining tables keeps the contents of both with the existing entries preserved.",
  ["inputs", "histories", "configurations"],
  "all tables, availability patterns, sampling rates, and sequences of save/load/combine",
  "No test serves or stores a traveltime table.",
  [Q + "lut/lut.py", Q + "lut/create_lut.py"],
  [("serving", Q + "lut/lut.py LUT.serve_traveltimes()/traveltime_to()"),
   ("persistence and combination", Q + "lut/lut.py LUT.save()/load()/__eq__()/__add__(); create_lut.py read_nlloc()")],
  ["served array; reloaded LUT"])

P("C13", "The continuous coalescence archive round-trips",
  "Coalescence computed in consecutive timesteps and written to file is read back with every sample at its own time, values equal "
  "to those computed up to the documented storage precision and clipping, for every timestep length, start time, sampling rate, day-boundary "
  "crossing and write mode. Timesteps without data are stored as zeros over the same samples, every sample is in the file of its own day, and "
  "reading returns the samples (and only those) of the requested window and padding, with gaps between files read as zero coalescence, like timesteps without data, and never dropped or shifted.",
  ["histories", "inputs", "configurations"],
  "all sequences of computed and empty timesteps, start times, timesteps, rates, day crossings, write modes and read windows",
  "No test writes or reads the scan archive.",
  [Q + "io/scanmseed.py"],
  [("append/empty/write", Q + "io/scanmseed.py ScanmSEED"), ("read", Q + "io/scanmseed.py read_scanmseed()")],
  ["DataFrame returned by read_scanmseed()"])

P("C14", "detect() scans every sample of the requested period once",
  "For every period, timestep and availability pattern, the scan output has one value per sample from the start time to the "
  "(possibly extended) end time without gaps or duplicates, each equal to the coalescence computed directly from the onset functions and "
  "traveltimes at that instant and independent of timestep and thread count (up to edge effects of the onset). Steps without usable data are output as zero coalescence with zero "
  "availability, and the written availability record has one row per timestep matching the station-phases used.",
  ["inputs", "configurations", "fault_sequences"],
  "all time spans, timesteps, thread counts, station-phase availability per timestep, empty/gappy steps",
  "The detect stage is only exercised by example benchmarks needing downloaded data.",
  [Q + "signal/scan.py", Q + "io/scanmseed.py", Q + "io/availability.py"],
  [("timestep loop", Q + "signal/scan.py QuakeScan.detect()/_continuous_compute()/_compute()"),
   ("availability file", Q + "io/availability.py write_availability()")],
  ["scanmseed and availability files of a run"])

P("C15", "Trigger finds exactly the supra-threshold coalescence peaks",
  "The triggered events are exactly those obtained by thresholding the (normalised, optionally smoothed) coalescence "
  "trace: each contiguous exceedance gives a candidate at its coalescence maximum, candidates closer than the minimum event interval are merged "
  "keeping the largest, and events outside the requested period or region are dropped. Every reported event "
  "time is a sample that exceeds the threshold with the values and location of the trace at that sample, no two events are "
  "closer than the minimum event interval, and no exceedance is left without an event that accounts for it.",
  ["inputs", "configurations", "histories"],
  "all coalescence traces, threshold methods and parameters, smoothing, marginal windows, minimum intervals, regions and periods",
  "Tests check only the threshold and smoothing vectors on an 8-sample trace.",
  [Q + "signal/trigger.py"],
  [("candidate identification and refinement", Q + "signal/trigger.py Trigger._identify_candidates()/_refine_candidates()/_filter_events()")],
  ["TriggeredEvents.csv written by Trigger.trigger()"])

P("C16", "Trigger thresholds and smoothing follow their definitions",
  "The static threshold is constant at the given value; the MAD and median-ratio thresholds are constant over "
  "each window of the configured length, equal to the median plus multiplier times the scaled median absolute deviation, "
  "or the multiplier times the median, of the trace in that window. Smoothing is a convolution with a normalised Gaussian of "
  "the configured width: it preserves constants and length, introduces no time shift and is independent of scale.",
  ["inputs", "configurations"],
  "all traces, sampling rates, window lengths, multipliers and smoothing parameters",
  "Two fixed toy vectors are tested; window remainders and sampling rates are not.",
  [Q + "signal/trigger.py", Q + "util.py"],
  [("threshold", Q + "signal/trigger.py Trigger._get_threshold()/util.calculate_mad()"),
   ("smoothing", Q + "signal/trigger.py Trigger._smooth_coa()")],
  ["threshold vector / smoothed trace"])

P("C17", "Triggered-event files are read back as the same events",
  "Triggered events written by a trigger run (over one or several days, with or without sub-names and extra columns) are "
  "read back with identical IDs, times, locations and values: those inside a requested period (ends inclusive except for "
  "a midnight end) and only those, each once. What a run writes depends only on that run's own "
  "results, never on earlier runs in the same process or stale files of an earlier run of the same period.",
  ["histories", "inputs", "configurations"],
  "all event sets, periods (incl. day boundaries), write options and sequences of writes/reads",
  "No test writes or reads triggered events; leakage between successive writes needs a history.",
  [Q + "io/triggered_events.py", Q + "signal/trigger.py"],
  [("write", Q + "io/triggered_events.py write_triggered_events()"),
   ("read", Q + "io/triggered_events.py read_triggered_events()")],
  ["CSV files; DataFrame returned by read_triggered_events()"])

P("C18", "locate() recovers the source of consistent arrivals",
  "For a synthetic source whose onsets arrive at times predicted by the lookup table, locate reports an event whose origin time "
  "and hypocentre agree with the source within the node spacing and sampling interval, for any node, origin time, window "
  "and station subset. An event is reported if and only if its peak coalescence lies within the marginal window around its trigger time; "
  "events with no data or rejected peaks are skipped without affecting the other events of the run.",
  ["inputs", "configurations", "histories"],
  "all source nodes, origin times, sampling rates, marginal windows, trigger-time errors, station subsets and event lists",
  "End-to-end location is only exercised by benchmarks that need downloaded data.",
  [Q + "signal/scan.py", Q + "io/event.py"],
  [("event loop and compute", Q + "signal/scan.py QuakeScan.locate()/_locate_events()/_compute()"),
   ("marginal window", Q + "io/event.py Event.in_marginal_window()/trim2window()")],
  [".event files of a locate run"])

P("C19", "Location estimates and uncertainties describe the coalescence map",
  "For every marginalised coalescence map, the covariance location and uncertainty are the weighted mean and "
  "standard deviation of the node positions above the 90 % level; the spline location lies inside the cell neighbourhood of the "
  "maximum and at least as high as the gridded maximum; the Gaussian location recovers the centre of a Gaussian-shaped "
  "peak. All are equivariant to shifting or mirroring the peak within the grid and consistent with the grid's geographic frame and units.",
  ["inputs"],
  "all coalescence maps (peak position, width, anisotropy, background), grids and node spacings",
  "Nothing tests the location estimators.",
  [Q + "signal/scan.py", Q + "io/event.py", Q + "util.py"],
  [("estimators", Q + "signal/scan.py QuakeScan._calculate_location()/_splineloc()/_gaufit3d()/_covfit3d()")],
  ["location columns of the .event file / Event.loc"])

P("C20", "Phase picks honour their windows, thresholds and onsets",
  "For every event, the pick search windows of a station's phases lie around the modelled arrival times, do not overlap, "
  "and a pick is reported only if it lies in its window and the onset peak there exceeds the noise threshold; otherwise the "
  "pick is reported as absent. For an onset with a Gaussian-shaped peak the pick time, "
  "uncertainty, SNR and residual are those of that peak relative to the modelled time, and picks of one station do not depend on other stations.",
  ["inputs", "configurations"],
  "all onset shapes, event locations, traveltimes, fractions, thresholds, phases and missing station-phases",
  "No unit test covers picking.",
  [Q + "signal/pickers/gaussian.py", Q + "signal/pickers/base.py"],
  [("windows", Q + "signal/pickers/gaussian.py GaussianPicker._determine_window/ pick_phases()"),
   ("fit", Q + "signal/pickers/gaussian.py GaussianPicker._fit_gaussian()")],
  ["event.picks['df'] / .picks file"])

P("C21", "Event, pick and amplitude files faithfully record the result",
  "Writing an event produces exactly one event file, one pick file and (when amplitudes are measured) one amplitude file, each named by its UID, whose values equal the event's origin "
  "time, coalescence, hypocentre, uncertainties, magnitude, picks and amplitudes (up to the documented decimal precision and "
  "unit conversion), in the documented columns; reading them back yields those values. What is written for one event does not depend on "
  "other events processed before it.",
  ["inputs", "histories", "configurations"],
  "all events (locations, times incl. sub-second and day boundaries, with/without magnitudes), units and write sequences",
  "No test writes an event.",
  [Q + "io/event.py", Q + "signal/pickers/base.py", Q + "io/core.py"],
  [("event file", Q + "io/event.py Event.write()/get_hypocentre()"),
   ("picks file", Q + "signal/pickers/base.py PhasePicker.write()"),
   ("amplitudes file", Q + "io/amplitudes.py write_amplitudes()")],
  [".event, .picks and .amps files"])

P("C22", "Amplitudes measure the largest signal swing in the right window",
  "For every event and trace, the reported signal amplitude is half the largest peak-to-trough swing of the "
  "prepared trace within that phase's signal window (P and S windows as documented and never overlapping), among swings as prominent as "
  "configured, with its time and approximate period, and the noise amplitude is the configured statistic of the noise window before the P arrival. Amplitudes scale linearly "
  "with the trace, do not depend on other traces, and traces without complete data yield no measurement rather than a wrong one.",
  ["inputs", "configurations"],
  "all traces, event locations, pick/no-pick cases, window parameters, noise measures, gaps and missing components",
  "No test measures an amplitude.",
  [Q + "signal/local_mag/amplitude.py"],
  [("windows and measurement", Q + "signal/local_mag/amplitude.py Amplitude.get_amplitudes()/_get_amplitude/_get_noise_amp")],
  ["returned amplitudes DataFrame"])

P("C23", "Local magnitudes follow the attenuation law and averaging rules",
  "Each individual magnitude is log10(amplitude) plus the attenuation correction at the configured distance "
  "plus station correction, its error the difference at amplitude plus and minus the noise; only observations passing every configured filter are "
  "used. The event magnitude is the (weighted) mean of exactly those, with their (weighted) standard deviation as error and the "
  "documented goodness of fit, unaffected by unusable observations, and the calculation leaves its inputs unmodified.",
  ["inputs", "configurations"],
  "all amplitude tables (NaNs, zero noise, single observations), attenuation functions, corrections, filters, weights",
  "No test computes a magnitude.",
  [Q + "signal/local_mag/magnitude.py", Q + "signal/local_mag/local_mag.py"],
  [("individual magnitudes", Q + "signal/local_mag/magnitude.py Magnitude.calculate_magnitudes()"),
   ("mean", Q + "signal/local_mag/magnitude.py Magnitude.mean_magnitude()")],
  ["returned DataFrame and (ML, error, r2)"])

P("C24", "Waveform correction is per-trace, repeatable and leaves the data intact",
  "Real-ground-motion and Wood-Anderson waveforms of a trace equal the configured response removal/simulation applied to that "
  "trace alone, with the response the inventory holds for its channel and time (seismometers and accelerometers, poles and zeros "
  "in rad/s or Hz): they are identical whether requested once or repeatedly, in whatever order and units, alone or among other "
  "traces. The raw waveforms an event holds are never altered by correction, amplitude "
  "measurement or waveform output, and a trace without a response is reported as such and skipped without affecting others.",
  ["histories", "inputs", "configurations"],
  "all sequences of real/WA requests in displacement/velocity over sets of traces with and without responses",
  "No test removes a response; order effects need a history of calls.",
  [Q + "io/data.py"],
  [("response removal", Q + "io/data.py WaveformData.get_real_waveform()/get_wa_waveform()")],
  ["returned traces; raw_waveforms before and after"])

P("C25", "Cut waveforms contain exactly the requested data",
  "For every event, the cut-waveform file holds for each trace read for the event exactly its samples between origin time minus the "
  "pre-cut and origin time plus the post-cut (clipped to the data read), raw or corrected to the requested "
  "type and units. Writing several kinds, formats or units for one event in any order gives the same files as writing each alone.",
  ["histories", "inputs", "configurations"],
  "all cut lengths, waveform types, units, formats, write orders and data extents",
  "No test writes cut waveforms.",
  [Q + "io/cut_waveforms.py", Q + "io/data.py"],
  [("cut and write", Q + "io/cut_waveforms.py write_cut_waveforms()")],
  ["cut waveform files"])

P("C26", "Exports carry the catalogue over without loss or distortion",
  "Exporting a located run to an ObsPy catalogue, NonLinLoc observations, Snuffler markers/stations or MFAST SAC headers preserves every "
  "event, origin time, location, uncertainty, magnitude, pick time and pick uncertainty to the precision of the target format, in its units and "
  "time conventions, for every value including fractional seconds, day boundaries and missing picks. Every pick stays "
  "attached to its own event, station and phase.",
  ["inputs"],
  "all events and pick tables (fractional seconds, minute/hour/day boundaries, absent picks, multiple networks), units and options",
  "Export code has no tests.",
  [Q + "export/to_obspy.py", Q + "export/to_nlloc.py", Q + "export/to_snuffler.py", Q + "export/to_mfast.py"],
  [("obspy catalogue", Q + "export/to_obspy.py read_quakemigrate()/_read_single_event()"),
   ("nlloc phases", Q + "export/to_nlloc.py nlloc_obs()"),
   ("snuffler", Q + "export/to_snuffler.py"), ("SAC headers", Q + "export/to_mfast.py sac_mfast()")],
  ["exported objects/files"])

P("C27", "Inputs are read faithfully and invalid inputs rejected",
  "Station, velocity-model, response and lookup-table input files are read with every value unchanged and files lacking a required column "
  "or column order are rejected with the documented error. Invalid run parameters (start after end, inconsistent window lengths, unknown "
  "threshold methods, wrong object types, missing arguments) raise the documented exception before "
  "any result is produced, and valid ones are accepted. Parameters left out take their documented defaults, given ones their value, independently of "
  "any other object. Station names keep their exact text, and deprecated parameter names have the effect of the current ones.",
  ["inputs", "configurations"],
  "all input files (column orders, extra/missing columns, number formats, comments) and parameter combinations",
  "No test feeds an invalid file or parameter.",
  [Q + "io/core.py", Q + "signal/scan.py", Q + "signal/trigger.py", Q + "util.py"],
  [("file readers", Q + "io/core.py read_stations()/read_vmodel()/read_lut()"),
   ("argument checks", Q + "signal/scan.py QuakeScan.__init__/detect/locate; signal/trigger.py Trigger.__init__/trigger")],
  ["exceptions raised; DataFrames returned"])

P("C28", "Availability records round-trip and combine correctly",
  "The availability written by a scan is read back for any period: every timestep of the days the period touches is returned once, "
  "with identical station-phase values, across any number of day files, and none of other days. Records in the earlier "
  "single-phase format are read as equivalent to the current one.",
  ["histories", "inputs"],
  "all availability tables, day splits, periods and formats",
  "No test writes or reads availability.",
  [Q + "io/availability.py"],
  [("write/read", Q + "io/availability.py write_availability()/read_availability()")],
  ["DataFrame returned by read_availability()"])

P("C29", "NonLinLoc traveltime grids are imported at their own positions",
  "Reading NonLinLoc grid headers and buffers gives a lookup table whose projection, extent, node spacing and node count are those of the "
  "files and whose traveltime at each node is the value stored for that node and station-phase, for every supported projection "
  "type. Traveltimes interpolated from 2-D NonLinLoc sweeps equal the sweep evaluated at the node's epicentral "
  "distance and depth.",
  ["inputs", "configurations"],
  "all header contents (transforms, spacings, origins, shapes) and buffers",
  "No test reads NonLinLoc output.",
  [Q + "lut/create_lut.py", Q + "lut/lut.py"],
  [("header/buffer parsing", Q + "lut/create_lut.py read_nlloc()/_read_nlloc()"),
   ("interpolation", Q + "lut/create_lut.py _bilinear_interpolate()")],
  ["LUT returned by read_nlloc(); compute_traveltimes(method='1dnlloc')"])

P("C30", "Sampling-time utilities agree with exact arithmetic",
  "Conversions between times and sample counts, trimming of pads to whole samples, Gaussian windows, time-string and unit "
  "helpers agree with exact arithmetic for every sampling rate and duration: a whole number of samples is "
  "never reported one short or one long because of floating-point rounding, so every analysis window has the number of samples its "
  "duration implies.",
  ["inputs", "configurations"],
  "all sampling rates (incl. those not dividing 1000) and durations",
  "No test covers these helpers; rounding failures occur only for particular rate/duration pairs.",
  [Q + "util.py", Q + "io/event.py", Q + "signal/onsets/base.py", Q + "signal/onsets/stalta.py"],
  [("time to sample", Q + "util.py time2sample()/trim2sample()"),
   ("pads", Q + "signal/onsets/stalta.py STALTAOnset.pad()"), ("marginal-window times", Q + "io/event.py Event.mw_times()")],
  ["returned values"])

P("C31", "Detect, trigger and locate together recover the planted earthquakes",
  "For a waveform archive holding noise and well-separated, clear synthetic earthquakes, running detect, trigger and locate "
  "one after another through their output files yields exactly one triggered and one located event per planted earthquake and none "
  "besides: near its origin time and hypocentre, with modelled arrivals at the true arrivals, whatever the grid units and projection, "
  "the decimation used for detect, the timestep or split of the scan, the day boundary, the trigger threshold method, the sub-run name, "
  "and the thread count. Locating from a trigger file gives the same files as locating the same events by time range. The objects of a "
  "run can be used for any sequence of runs with changed settings: each run gives the files that fresh objects with those settings give.",
  ["inputs", "configurations", "histories"],
  "all archives of separated clear events, grids, run settings and splits of the scan",
  "The repository's own end-to-end tests need downloaded data and compare single runs.",
  [Q + "signal/scan.py", Q + "signal/trigger.py", Q + "io", Q + "signal/onsets/stalta.py", Q + "lut/lut.py"],
  [("stages", Q + "signal/scan.py QuakeScan.detect()/locate(); signal/trigger.py Trigger.trigger()")],
  ["TriggeredEvents files, .event and .picks files"])

P("C32", "Figures never disturb a run",
  "Turning on any of the figures (event summary, phase picks, amplitudes, trigger summary), with or without extra map files "
  "and station restrictions, makes every requested figure file for every event and changes nothing else: triggered events, located events, "
  "picks, amplitudes, coalescence and cut waveforms are the files the same run writes without figures, and no "
  "run that completes without figures fails with them.",
  ["inputs", "configurations", "histories"],
  "all runs and combinations of figure options",
  "No test draws a figure.",
  [Q + "plot", Q + "signal/scan.py", Q + "signal/trigger.py", Q + "signal/pickers/gaussian.py", Q + "signal/local_mag"],
  [("event summary", Q + "plot/event.py event_summary()"), ("picks", Q + "plot/phase_picks.py pick_summary()"),
   ("trigger summary", Q + "plot/trigger.py trigger_summary()"), ("amplitudes", Q + "plot/amplitudes.py amplitudes_summary()")],
  ["output files of trigger and locate; figure files"])

P("C33", "A planted earthquake's magnitude comes back from locate",
  "For ground motion of a known local magnitude recorded through known instruments, locate with magnitudes switched on reports that "
  "magnitude for the event: amplitudes on every trace are the planted Wood-Anderson amplitudes, distances are those from the reported "
  "hypocentre, station corrections, amplitude multiplier and filters act as documented, whatever the instrument, gain, units, attenuation "
  "law, filter, window and cut options. Multiplying all recordings by ten to the k leaves everything about "
  "the event unchanged but adds k to the magnitude.",
  ["inputs", "configurations"],
  "all instruments, magnitudes, attenuation laws, grids and magnitude options",
  "No test computes a magnitude.",
  [Q + "signal/local_mag", Q + "io/data.py", Q + "signal/scan.py", Q + "io/event.py", Q + "io/amplitudes.py"],
  [("amplitudes", Q + "signal/local_mag/amplitude.py Amplitude.get_amplitudes()"),
   ("magnitude", Q + "signal/local_mag/local_mag.py LocalMag.calc_magnitude()"),
   ("waveform padding", Q + "signal/scan.py QuakeScan._read_event_waveform_data()")],
  [".event and .amps files"])

P("C34", "Every logged run leaves its own log",
  "Every detect, trigger or locate run with logging to file switched on leaves a log file in the run's own directory (by stage and "
  "sub-run), named after the run, that holds that run's messages at the chosen level, in order, and no message of any other run, "
  "whatever was run before in the same process; runs without it write no log file, and every run prints its messages.",
  ["histories", "configurations"],
  "all sequences of runs in a process, stages, names, sub-names, log levels",
  "No test looks at the log; the leakage between runs needs a history of them.",
  [Q + "util.py", Q + "io/core.py", Q + "signal/scan.py", Q + "signal/trigger.py"],
  [("log handlers", Q + "util.py logger()"), ("log path", Q + "io/core.py Run.logger()")],
  ["log files and standard output"])

P("C35", "Figures show the results of the run",
  "Every figure drawn shows the run's own results in the right place. The event summary gives the origin time, hypocentre with uncertainties "
  "in kilometres and magnitude of the event file, the coalescence at its maximum on map and cross-sections, the stations used, the "
  "uncertainty ellipses, and the filtered waveforms with modelled arrivals in distance order; pick figures show the station's onsets, "
  "waveforms, windows, thresholds and written picks of each phase in its own panels; amplitude figures show each used and unused observation, the noise "
  "and the amplitudes predicted for the magnitude; trigger figures show the coalescence, threshold, every triggered event "
  "with its windows, the region and the number of available stations through time.",
  ["inputs", "configurations"],
  "all runs, phases, units, channels, station restrictions and figure options",
  "No test draws a figure; what is shown depends on phases, units, missing channels and history.",
  [Q + "plot", Q + "lut/lut.py", Q + "signal/pickers/gaussian.py", Q + "signal/local_mag"],
  [("event summary", Q + "plot/event.py event_summary()"), ("picks", Q + "plot/phase_picks.py pick_summary()"),
   ("trigger summary", Q + "plot/trigger.py trigger_summary()"), ("amplitudes", Q + "plot/amplitudes.py amplitudes_summary()"),
   ("maps", Q + "lut/lut.py LUT.plot()")],
  ["figures"])

P("C36", "Results depend on the experiment, not on how it is written down",
  "The same experiment gives the same results of detect, trigger and locate (scan, availability, triggered events, locations with uncertainties, picks, "
  "amplitudes, magnitudes, cut waveforms) however it is represented: lookup table in kilometres or metres, stations in another order or "
  "under other names (any text: numbers, NA), other network, location and component codes (N/E or 1/2), any archive layout, division "
  "into files and segments, encoding or channel gain (corrected by the response), additional unrelated data in the archive, number of threads, run name and directory, "
  "format of the times given, and the whole experiment moved to another date or time of day (across midnight, year end or a leap day).",
  ["inputs", "configurations"],
  "all experiments and all representations of each",
  "Needs whole runs compared under transformation; unit tests run parts on one example.",
  ["quakemigrate"],
  [("detect and locate", Q + "signal/scan.py QuakeScan"), ("trigger", Q + "signal/trigger.py Trigger.trigger()"), ("archive", Q + "io/data.py Archive"),
   ("scan files", Q + "io/scanmseed.py"), ("grid and units", Q + "lut/lut.py Grid3D.unit_conversion_factor")],
  ["all output files of the three stages"])

P("C37", "Objects may be reused: earlier use does not change later results",
  "Archive, LUT, Onset, PhasePicker, LocalMag, QuakeScan and Trigger objects may be used again, shared between runs, given new parameters and used "
  "alternately with other experiments in one process. Every run of detect, trigger or locate writes exactly the files (and fails exactly when) the same run "
  "with newly made, unused objects in a new process would, given the same files: nothing is remembered of earlier time spans, lookup tables, archive contents, parameters, failures or runs.",
  ["histories", "configurations"],
  "all histories of runs, parameter changes, lookup table changes and archive changes",
  "Unit tests use each object once; stale state only shows in sequences of different runs.",
  ["quakemigrate"],
  [("detect and locate", Q + "signal/scan.py QuakeScan"), ("trigger", Q + "signal/trigger.py Trigger"), ("archive", Q + "io/data.py Archive"),
   ("onsets", Q + "signal/onsets/stalta.py STALTAOnset"), ("table", Q + "lut/lut.py LUT"), ("picker", Q + "signal/pickers/gaussian.py"),
   ("magnitudes", Q + "signal/local_mag")],
  ["all output files and errors of every run of a session"])

P("C38", "Printed summaries and logs state the parameters and progress of the run",
  "The summary of a Trigger, QuakeScan, onset, picker, magnitude, Archive, lookup table or Run object states the value in effect of every parameter it "
  "names, with its unit, also after the parameter was changed, and does not state parameters that are not in effect (thresholds of another method, "
  "filters that are off). The log of a detect, trigger or locate run holds the summaries of the objects used as they were during the run, the time span asked for, and what "
  "happened: the timesteps scanned, the numbers of events triggered on each day, each event to be located once, in order, and whether it was skipped.",
  ["inputs", "configurations", "histories"],
  "all parameter sets, changes of parameters, and runs",
  "No unit test looks at a summary or a log; users rely on them to document what a catalogue was made with.",
  ["quakemigrate"],
  [("trigger", Q + "signal/trigger.py Trigger.__str__()/trigger()"), ("scan", Q + "signal/scan.py QuakeScan.__str__()/detect()/locate()"),
   ("onset", Q + "signal/onsets/stalta.py STALTAOnset.__str__()"), ("picker", Q + "signal/pickers/gaussian.py GaussianPicker.__str__()"),
   ("magnitudes", Q + "signal/local_mag/ Amplitude/Magnitude/LocalMag.__str__()"), ("archive", Q + "io/data.py Archive.__str__()"),
   ("table", Q + "lut/lut.py LUT.__str__()"), ("run", Q + "io/core.py Run.__str__()")],
  ["str() of the objects; log files of runs"])

P("C39", "An interrupted run damages nothing, keeps what it completed, and can be repeated",
  "Wherever a detect, trigger or locate run is interrupted (killed, Ctrl-C, or an error such as a full disk on opening a file), files it had not begun to write are as they were, "
  "files it had written are complete, and the error is raised rather than passed over. The scan archive holds every completed day and, if written continuously, every completed timestep; "
  "every event completed before has all its files, later ones none. Repeating the run, with new objects or with those that were interrupted, gives exactly the files of an uninterrupted run.",
  ["faults", "histories", "configurations"],
  "all points of interruption of all runs, once or repeatedly",
  "Unit tests run no stage to its end, and none is interrupted.",
  ["quakemigrate"],
  [("detect and locate", Q + "signal/scan.py QuakeScan._continuous_compute()/_locate_events()"), ("scan archive", Q + "io/scanmseed.py ScanmSEED.append()/write()"),
   ("trigger", Q + "signal/trigger.py Trigger.trigger()"), ("event files", Q + "io/event.py Event.write()"), ("archive", Q + "io/data.py Archive")],
  ["all output files and errors of interrupted and repeated runs"])

P("C40", "Runs of different spans, stages or names may work side by side",
  "Two processes may work in the same run directory at the same time if they do not need each other's results: detect, trigger or locate over different days, trigger and locate "
  "under different sub-names, or one stage on one day while another works on the next. Whatever point of the one the other runs at, both succeed and the directory holds exactly the files "
  "that it would if they had run one after the other.",
  ["schedules", "histories", "configurations"],
  "all points of interleaving of two independent runs",
  "Unit tests run one thing at a time; a scan is split by days over processes in practice.",
  ["quakemigrate"],
  [("detect and locate", Q + "signal/scan.py QuakeScan"), ("scan archive", Q + "io/scanmseed.py ScanmSEED.write()"), ("availability", Q + "io/availability.py write_availability()"),
   ("trigger files", Q + "io/triggered_events.py"), ("event files", Q + "io/event.py Event.write()"), ("directories", Q + "util.py make_directories()")],
  ["all output files of the two processes"])

P("C41", "Runs leave the process and their inputs as they found them",
  "Running a stage, building or querying a lookup table, reading inputs or exporting results leaves the user's program as it was: its open figures, plotting, numpy, pandas and "
  "warning settings, random state, working directory, environment, threads and open files (log files and the root logger aside), and the objects, tables and archive files handed "
  "over. Nothing is written outside the run directory. Nor do the results depend on any of these settings.",
  ["configurations", "histories"],
  "all surroundings, stages, calls, with and without figures",
  "Unit tests run in one process nobody else uses.",
  ["quakemigrate"],
  [("figures", Q + "plot/event.py event_summary()"), ("figures", Q + "signal/local_mag/magnitude.py Magnitude.plot_amplitudes()"), ("figures", Q + "plot/trigger.py"),
   ("stages", Q + "signal/scan.py QuakeScan, " + Q + "signal/trigger.py Trigger"), ("lookup tables", Q + "lut/create_lut.py compute_traveltimes()"), ("inputs", Q + "io/core.py"),
   ("exports", Q + "export")],
  ["settings of the process, objects handed over, files around the run directory, results"])
