"""Writes MANIFEST.json and known_findings.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(R + "/properties.jsonl")]
T = {  # property -> (model-checked modules, what the conformance part does)
 "C01": ("FieldGen", "histories of generation calls drawn from FieldGen are replayed on real generators; every block of every returned array is identified against reference runs and the recorded calls are validated by FieldGenTrace"),
 "C02": ("FieldGen", "interleavings of construction, generation and global random draws over several generators, drawn from FieldGen, are replayed and validated by FieldGenTrace"),
 "C03": ("Window", "configurations from WindowSim are built for real; every block is compared by FieldTrace with the correlation of the noise window that Window specifies"),
 "C04": ("Window", "recorded fields, RMS values and profiles are compared by FieldTrace with the profile and normalisation formulas of Window"),
 "C05": ("FieldGen", "histories with refused calls at every position, drawn from FieldGen, are replayed and validated by FieldGenTrace"),
 "C06": ("Kernel", "real kernels are evaluated on lattices chosen by KernelSim; KernelTrace judges every wavevector"),
 "C07": ("Kernel", "real kernels, stand-alone and as built by the generators, are compared wavevector by wavevector with the tensors of Kernel by KernelTrace"),
 "C08": ("Sampler", "histories of sampler calls drawn from Sampler are replayed; SamplerTrace compares results, inputs, earlier results and Fourier modes with the abstract images"),
 "C09": ("LowFreq", "configurations from LowFreqSim are built; LowFreqTrace compares the grid with the arithmetic of LowFreq"),
 "C10": ("LowFreq, LowFreqLife", "generated fields and their recorded noise are transformed and judged mode by mode by LowFreqTrace"),
 "C11": ("LowFreqLife", "histories of generation and queries drawn from LowFreqLife are replayed; LowFreqTrace judges every answer"),
 "C12": ("Window", "2D+3D configurations from LFSim are generated; FieldTrace compares every sampled point with the bilinear interpolant at the position Window specifies"),
 "C13": ("Problem", "behaviours of Problem (parameter vectors, setters, getters, problems) are replayed; ProblemTrace compares all observed objects after each step"),
 "C14": ("Problem", "behaviours of Problem with save, load and DRD generators are replayed; ProblemTrace compares the reloaded model with the saved one"),
 "C15": ("Calib", "calibrations with configurations and data from CalibSim run for real with recorded loss evaluations; CalibTrace validates the loop"),
 "C16": ("Loss", "tables of spectra, targets and weights from LossSim are evaluated by the real loss; LossTrace recomputes terms, total and gradient"),
 "C17": ("Loss", "sequences of evaluations from LossHistSim are replayed; LossTrace recomputes history, averages, diagnostics and advice"),
 "C18": ("Calib", "fits with all component counts and plots of them are recorded; CalibTrace decides influence, loss and panels"),
 "C19": ("Evals", "histories of evaluations drawn from Evals are replayed on one model; EvalsTrace compares with the pointwise reference"),
 "C20": ("Spectra", "models and wavenumbers from SpectraSim are evaluated; SpectraTrace recomputes the double integrals"),
 "C21": ("Lifetime", "wavevectors and models from LifetimeSim are evaluated; LifetimeTrace recomputes every value"),
 "C22": ("Spectra", "coherences, stand-alone and inside calibrations, are recorded; SpectraTrace recomputes them"),
 "C23": ("CohData", "files from CohDataSim are written and loaded by the real code; CohDataTrace compares the loaded tables with Loaded"),
 "C24": ("Synth", "the real generators are called with inputs from SynthSim; SynthTrace recomputes every entry"),
 "C25": ("Export", "histories of generation and export drawn from Export are replayed; ExportTrace compares the files parsed back with the fields"),
 "C26": ("GridOps", "real helpers and plots are called with inputs from GridOpsSim; GridOpsTrace recomputes every value"),
 "C27": ("Construct", "the whole argument enumeration of Construct is built for real; ConstructTrace compares outcome, layers, sizes and arguments"),
 "C28": ("Plots", "histories of calibration, assignment and plotting drawn from Plots are replayed; PlotsTrace compares lines, panels and files with what the problem answers"),
 "C29": ("RunLog", "programs of evaluations drawn from RunLogSim and whole calibrations are run; RunLogTrace compares what TensorBoard reads back with the entries RunLog makes"),
 "C30": ("Schedule", "optimizers and loss histories drawn from ScheduleSim are run under the schedules; ScheduleTrace compares every rate"),
}
BASE = ("The design module is model-checked exhaustively within its small bounds by TLC (the specification itself satisfies the property); the code is bound to it by "
        "seeded scenarios that TLC generates and by validating what the real, unmodified public API did against the same formulas. Assurance for the code is that of the explored scenarios, not a proof. "
        "Trusted: TLC, the double-precision arithmetic of java/Real64.java, numpy's reading of arrays, and the driver's recording. ")
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./run {i}", thorough_cmd=f"VERIF_TIER=thorough ./run {i}", evidence_file=f"evidence/{i}.json",
        technique=f"TLA+ specification ({T[i][0]}) checked with TLC, bound by trace replay and trace validation", level="model_checking", level_note=BASE + T[i][1][0].upper() + T[i][1][1:] + "."))
json.dump(dict(version=1, setup_cmd="./run setup", checks=checks, not_applicable=[],
  notes="No hooks: everything is observed through the public API (and through stand-ins installed by the drivers). See DESIGN.md."), open(R + "/MANIFEST.json", "w"), indent=1)
F = [
 ("C15", "03172e2", "calibrate() crashed when the energy spectrum is not learnable (no data of exponents to record)"),
 ("C12", "a4f2655", "the low-frequency part of every generation call started again at x = 0 of the low-frequency field, so later calls repeated it (also C01)"),
 ("C02", "7ee9e9c", "a seeded 2D+3D generator was not reproducible: its low-frequency noise came from the global random state"),
 ("C05", "e8c929a", "a generation call refused for its profile had already advanced the noise window"),
 ("C13", "be5ff46", "assigning parameters aliased the caller's array: changing it afterwards changed the model"),
 ("C23", "ec3aee7", "rows of a coherence file whose indices did not start at 0 or were not contiguous were misplaced"),
 ("C22", "ef4fc60", "the configured coherence integration grid was ignored"),
 ("C18", "204120a", "plot() showed the uv spectrum in the vw panel and the other way round"),
 ("C25", "b7c424f", "save_to_vtk(Path) raised TypeError"),
 ("C21", "c17e3e9", "the Mann approximation applied the length and time scales twice"),
 ("C27", "80a4c95", "DomainParameters could not be built from its documented arguments"),
 ("C27", "938dd5c", "from drdmannturb import * failed on names that do not exist"),
 ("C14", "e8d195f", "DRD generators evaluated a double-precision model in single precision"),
 ("C14", "4e3e326", "DRD generators used the eddy lifetime of another length scale than the saved model's (also C07)"),
 ("C03", "d15b9f8", "a Mann or DRD generator with time scale zero generated empty fields (also C05, C27)"),
 ("C11", "ccf4808", "analytical_spectrum of an integer array truncated its values to integers"),
 ("C13", "1467980", "assigning parameters of another precision made the network unusable"),
 ("C24", "39d8fc5", "von Karman data for double-precision wavenumbers were rounded to single precision"),
 ("C25", "e2f4dcf", "the spacing in an exported VTK file was written as np.float64(..) and could not be read"),
 ("C27", "71a5ffc", "DomainParameters accepted grid dimensions and levels that are not of length three"),
 ("C28", "a583052", "plot() showed the coherence of the model the last calibration started from"),
 ("C28", "2162f56", "plot(model_vals=..) did not divide the given values by the squared friction velocity"),
 ("C28", "3712991", "plot_losses(n) numbered the runs in the arbitrary order of the directory"),
 ("C28", "e8f3ef1", "plot_loss_logs crashed for a run that logged a single term"),
 ("C28", "ab29744", "plot() before any calibration and without data raised AttributeError"),
 ("C15", "3148652", "calibrate() crashed for a regularization weight and an eddy lifetime without network"),
 ("C27", "9a3f07f", "a problem with init_with_noise could not be built (missing attributes tauNet, Corrector)"),
 ("C10", "bf0490e", "a low-frequency generator given a whole-number L_2d generated a silently wrong field (integer powers in the compiled helper)"),
 ("C24", "38c5736", "von Karman and Kaimal data for integer wavenumbers were truncated to integers"),
]
F = F + json.load(open(R + "/tools/more_findings.json")) if os.path.exists(R + "/tools/more_findings.json") else F
with open(R + "/known_findings.jsonl", "w") as f:
    for p, c, w in F:
        f.write(json.dumps(dict(property=p, status="fixed", commit=c, what=w, line=f"fixed: property={p} {c} {w}")) + "\n")
