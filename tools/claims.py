"""Technique and note of each claimed check (a check is claimed when its module exists)."""
import pathlib

T = {
 "C01": ("Differential property testing of the compiled migration kernel against a NumPy reference, metamorphic relations (threads, order, irrelevant samples), and generated inputs under an ASan/UBSan build",
         "Generated arrays and grids, shrunk on failure; the kernel is rebuilt from /repo. Sanitizer facet covers memory safety. Nothing is proved beyond the generated cases."),
 "C02": ("Differential property testing of find_max_coa against a NumPy reference over generated maps and thread counts",
         "Generated maps with ties, extreme magnitudes, single nodes and samples."),
 "C03": ("Differential property testing of the STA/LTA kernels against an exact reference plus metamorphic relations",
         "Generated non-negative signals incl. zero stretches and windows that do not fit."),
 "C04": ("Model-based property testing of calculate_onsets against an independent reference pipeline; metamorphic relations over station subsets, order, scale and polarity",
         "Reference re-implements the documented processing with ObsPy primitives."),
 "C05": ("Property testing of the availability decision against a declarative model, with boundary-biased generated defects, and of its use by calculate_onsets",
         "Defects, options and rates generated jointly; one-sample boundaries in the corpus."),
 "C06": ("Model-based property testing of archive reading over generated on-disk archives",
         "Archives written to scratch in all layouts; the oracle is the dictionary of archived samples."),
 "C07": ("Property testing of sample-grid alignment and resampling with analytic signals and exact-time oracles",
         "Generated offsets, rates, gaps, upfactors."),
 "C08": ("Property testing of merge_stream against a sample-dictionary model, with permutation metamorphic relation",
         "Generated segments of several ids incl. conflicts."),
 "C09": ("Round-trip and oracle property testing of Grid3D conversions over generated grids and projections",
         "PROJ itself is trusted."),
 "C10": ("Metamorphic property testing of decimate against node-by-node comparison with the original",
         "Generated grids and factors."),
 "C11": ("Property testing of traveltime computation against analytic oracles (homogeneous distance, bounds, layered consistency)",
         "Tolerances follow the first/second-order error of the fast marching method."),
 "C12": ("Property testing of served traveltimes and model-based testing of save/load/combine histories",
         "Histories of up to seven operations against a dictionary model."),
 "C13": ("Model-based testing of append/empty/write/read histories of the scan archive",
         "Histories of generated timesteps against a dictionary of samples."),
 "C14": ("End-to-end property testing of detect() on generated archives against a direct reference, with fault injection (missing data per timestep) and metamorphic relations over timestep and threads",
         "Small grids and short runs."),
 "C15": ("Property testing of Trigger.trigger() on generated coalescence archives against a reference trigger and output invariants",
         "Traces are generated through the scan archive, results read from the CSV files."),
 "C16": ("Property testing of thresholds and smoothing against reference definitions, observed through private methods used by the stable tests and end-to-end",
         "Generated traces, rates, windows."),
 "C17": ("Model-based testing of histories of trigger writes and reads",
         "Histories of runs in one process against a model of the expected files."),
 "C18": ("End-to-end property testing of locate() with synthetic sources on generated lookup tables",
         "Synthetic onsets and waveforms; small grids."),
 "C19": ("Property testing of the location estimators against analytic maps, reference statistics and mirror/shift metamorphic relations",
         "Observed through Event.loc after the estimator call used by locate."),
 "C20": ("Property testing of the picker with synthetic onsets against a window model and analytic Gaussian peaks; isolation metamorphic relation",
         "Generated traveltimes, onsets, noise."),
 "C21": ("Round-trip property testing of event and pick files over histories of writes",
         "Generated events; values compared to the documented precision."),
 "C22": ("Property testing of amplitude measurement against a reference measurement in the documented windows; scaling and isolation relations",
         "Generated traces with and without gaps."),
 "C23": ("Differential property testing of magnitude calculation and averaging against the documented formulae",
         "Generated amplitude tables, filters and weights."),
 "C24": ("Stateful property testing: generated histories of correction requests compared with isolated single requests",
         "Generated poles-and-zeros responses of seismometers and accelerometers."),
 "C25": ("Stateful property testing of cut-waveform output against slices of the raw data",
         "Generated data extents, cuts, types and formats."),
 "C26": ("Round-trip property testing of the exporters over generated events and picks",
         "Exports read back with ObsPy."),
 "C27": ("Property testing of readers (value round-trip) and of argument validation (generated invalid and valid inputs)",
         "Generated files and parameter combinations."),
 "C28": ("Round-trip and model-based property testing of availability files",
         "Generated tables over several days, both formats."),
 "C29": ("Property testing of NonLinLoc import from generated header/buffer files and stand-in NonLinLoc programs",
         "Real NonLinLoc binaries are not available; stand-ins write the documented formats."),
 "C30": ("Property testing of sampling-time helpers against exact rational arithmetic",
         "Rates include those with irrational-looking intervals (33, 128, 12.5 Hz)."),
 "C31": ("End-to-end property testing of detect, trigger and locate on synthetic archives with planted sources; differential relation between time-range and trigger-file runs",
         "Clear, separated sources; tolerances of the location uncertainty."),
 "C32": ("Metamorphic property testing: the same generated run with and without figures",
         "Only that figures are made and change nothing; their contents are decided by C35."),
 "C33": ("End-to-end property testing of locate() on synthetic ground motion of known magnitude; metamorphic scaling relation",
         "Clear events; the magnitude is judged at the reported hypocentre."),
 "C35": ("Property testing of generated runs whose figures are captured when saved: what is drawn is compared with the run's results",
         "Drawn data, positions and texts; colours, fonts and layout are not judged."),
 "C36": ("Metamorphic property testing of whole detect/trigger/locate runs: generated experiments under random changes of representation",
         "Units, station order and floating point recordings: equal up to the last written digits; else equal."),
 "C37": ("Stateful property testing: generated sessions of runs with shared objects, each run compared with the same run by unused objects in a pristine process",
         "Byte-for-byte except times of writing; table changes need a new scan object (documented use)."),
 "C38": ("Property-based testing of printed summaries and of the logs of whole runs, parsed back, against the generated parameters",
         "Labels are identified by their first words; layout is not judged."),
 "C39": ("Fault-injection property testing: generated runs ended or failed at a generated operation, then repeated; compared with the uninterrupted run",
         "Interruptions fall between file and read operations, not inside a single write."),
 "C40": ("Schedule-generating property testing: a generated switch between two processes at an operation on files, compared with one after the other",
         "One switch to the second process and back per case."),
 "C41": ("Property testing of runs and calls in generated surroundings: invariants over the state of the process and of the inputs, and a metamorphic comparison with pristine surroundings",
         "A fixed list of settings is looked at; warning filters that turn warnings into errors are not set."),
 "C34": ("Stateful property testing of histories of logged and unlogged runs against a model of the log files",
         "Runs of the same name within a second share a log file."),
}
_checks = pathlib.Path(__file__).resolve().parent.parent / "pbt" / "checks"
CLAIMS = {i: {"technique": t, "note": n} for i, (t, n) in T.items()
          if list(_checks.glob(i.lower() + "_*.py"))}
NOT_APPLICABLE = {}
