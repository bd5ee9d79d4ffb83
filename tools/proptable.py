prop("P01", "Thread scheduling never changes results",
     "For every number of threads and every scheduling of them, a command computes the same results as with one thread, up to the rounding of explicitly accumulated sums. "
     "No two threads ever access the same data in conflict, and what is computed for one frequency, receiver or sub-source never depends on which others the same thread, or another thread, handled before.",
     ["schedules", "inputs"], "every interleaving of the threads of every parallel section, for every input",
     "Tests run one schedule on one machine; a race or state left over between iterations shows only under particular timings or thread counts.",
     [C + "src/dynamic/grn.c", C + "src/dynamic/grt_kernel.c", C + "src/modal/root.c", C + "src/modal/modgrn.c", C + "src/modal/grt_eigenfn.c", C + "src/okada/grt_okada.c", C + "src/static/grt_static_syn.c", C + "src/common/model.c"],
     [("per-iteration copies of the model state and the integration parameters", C + "src/dynamic/grn.c"), ("per-thread accumulation buffers reduced in a critical section", C + "src/static/grt_static_syn.c"), ("output written at the iteration's own index", C + "src/modal/modgrn.c")],
     "interprocedural points-to/effect analysis of OpenMP regions (race, carried state, order dependence)",
     "Static, all schedules and inputs; context-sensitive, flow-insensitive memory. Trusts that pointers captured by a region from different allocations do not overlap and that listed library routines are the only non-reentrant ones.")

prop("P02", "A failing NetCDF operation always ends the command with an error",
     "Whenever any NetCDF operation fails while a command reads or writes a NetCDF file (unreadable, truncated or foreign file, missing variable or attribute, full disk, failing close), the command ends with a nonzero exit status. "
     "It never goes on with data it did not read and never reports success for data it did not write.",
     ["fault_sequences", "inputs"], "every NetCDF call site, every way it can fail, every path that leads on from it",
     "The tests never make a NetCDF call fail, except for a few missing inputs.",
     [C + "include/grt/common/mynetcdf.h", C + "src/static/stgrnlib.c", C + "src/static/grt_static_syn.c", C + "src/okada/grt_okada.c", C + "src/modal/modal_util.c", C + "src/static/recv_points.c", C + "src/tools/grt_disp2asc.c"],
     [("status check around every call", C + "include/grt/common/mynetcdf.h")],
     "status-to-exit flow analysis on the control-flow graph of every NetCDF call (LLVM IR)",
     "Static, all call sites and paths. Five presence queries (optional variables, layout attribute) are exempt if their status is tested; trusts NetCDF to return 0 exactly on success.")

prop("P03", "A failing file operation always ends the command with an error",
     "If an input file cannot be opened or is shorter than it claims, or an output file or directory cannot be created, completely written or closed, the command ends with a nonzero exit status. "
     "It never continues with data that was not read, and never exits successfully leaving an output missing or truncated.",
     ["fault_sequences", "inputs"], "every open, read, write, close-after-write and mkdir, every way it can fail, every path that leads on from it",
     "The tests do not run with full disks, unwritable targets or truncated inputs.",
     [C + "include/grt/common/checkerror.h", C + "src/common/sacio.c", C + "src/common/model.c", C + "src/common/util.c", C + "src/integral/iostats.c", C + "src/integral/integ_process.c", C + "src/dynamic/signals.c", C + "src/static/recv_points.c", C + "src/common/finite_fault.c"],
     [("checked open / mkdir", C + "include/grt/common/checkerror.h"), ("SAC input and output wrappers", C + "src/common/sacio.c"), ("statistics writer", C + "src/integral/iostats.c")],
     "failure-obligation flow analysis with correlated constants, propagated to callers (LLVM IR)",
     "Static, all call sites and paths, helper functions followed into their callers. Console output is not a file output; fprintf failures are attributed to the close of the stream; an existing directory is not an error.")

prop("P04", "A reported error always means failure, down to the Python API",
     "Whenever a command reports an error, the process ends with a nonzero exit status, and a nonzero status of a command never turns into success on its way to the shell. "
     "A Python API call whose underlying command fails always raises an exception; numerical evaluations that report failure (singular or inadmissible receiver) are never used silently.",
     ["inputs", "fault_sequences"], "every error report, every status-returning evaluation and every command start, on every path",
     "Tests trigger a few of more than a hundred error reports and check a few exit codes.",
     [C + "include/grt/common/checkerror.h", C + "src/grt.c", C + "src/okada/grt_okada.c", "pygrt/cli.py", "pygrt/pymod.py", "pygrt/utils.py"],
     [("error macro that exits", C + "include/grt/common/checkerror.h"), ("module dispatch", C + "src/grt.c"), ("command runner", "pygrt/cli.py")],
     "path analysis from every error report to process exit (LLVM IR) and exit-status obligation analysis over the Python syntax tree",
     "Static, all paths. Error reports are recognised by the project's [ERROR] tag.")

prop("P05", "Malformed option and file text is always rejected",
     "Whenever a number, or one of several numbers, is missing from the text of an option, of a model file, of a fault file or of a receiver file (empty text, no digits where a number belongs, too few fields), the command ends with a nonzero exit status. "
     "A value that was not read from the text is never used in its place, except where the documentation makes the field optional.",
     ["inputs"], "every text-to-number conversion of every command, every number of fields that can be missing, every path that leads on from it",
     "Tests use well-formed text and a few malformed ones; there are about 140 conversions, each with several ways to fall short.",
     [C + "src/dynamic/grt_greenfn.c", C + "src/dynamic/grt_syn.c", C + "src/common/model.c", C + "src/common/finite_fault.c", C + "src/static/recv_points.c", C + "src/common/util.c", C + "src/dynamic/signals.c"],
     [("conversion count compared with the expected one", C + "src/dynamic/grt_greenfn.c"), ("bad-option error", C + "include/grt/common/checkerror.h")],
     "hypothesis-driven path analysis of every text conversion (LLVM IR, conversions inlined into their option)",
     "Static, all conversions and paths. Text after the last expected number is not part of the property.")

prop("P06", "Out-of-range parameters are always rejected",
     "A value outside its documented range ends the command with a nonzero exit status, whatever the other options are: negative depths, distances, frequencies, modes or indices; sample counts, steps, sampling intervals, scale factors, thread counts or orders that are not positive; ranges whose start lies beyond their end; azimuth or strike outside 0-360, dip outside 0-90, rake outside -180-180; nonphysical velocities, densities, quality factors or Poisson ratios; time functions without positive duration or with negative or unordered times; faults above the surface. "
     "It is never computed with, clamped or ignored.",
     ["inputs"], "every documented range of every option and input file, every value outside it, every path that leads on from the conversion",
     "Tests try a handful of bad values; a comparison that is slightly off only matters for values they do not use.",
     [C + "src/dynamic/grt_greenfn.c", C + "src/dynamic/grt_syn.c", C + "src/dynamic/grt_kernel.c", C + "src/modal/grt_eigenv.c", C + "src/modal/grt_eigenfn.c", C + "src/modal/grt_modsum.c", C + "src/okada/grt_okada.c", C + "src/static/grt_static_syn.c", C + "src/static/grt_static_greenfn.c", C + "src/lamb/grt_lamb1.c", C + "src/common/model.c", C + "src/common/finite_fault.c", C + "src/common/util.c", C + "src/dynamic/signals.c"],
     [("range test next to each conversion", C + "src/dynamic/grt_greenfn.c"), ("array and range parsers", C + "src/common/util.c")],
     "interval/relational hypothesis propagation from every conversion to a command's successful end (LLVM IR)",
     "Static: 207 range rules, all values of each forbidden interval and all paths. Not-a-number is outside the property.")

prop("P07", "Missing, unknown and conflicting options are always rejected",
     "An unknown option, an option without its argument, a mandatory option left out, or a combination documented as contradictory or incomplete (two depth forms at once, only one of the two depths, several point sources, point source together with finite faults, a receiver list together with a grid, only one grid axis) ends the command with a nonzero exit status. "
     "This holds whatever other options are given and in whatever order.",
     ["inputs", "histories"], "every command, every mandatory option and forbidden combination, with every combination of the remaining options",
     "Tests cannot enumerate option combinations and orders.",
     [C + "include/grt/common/checkerror.h", C + "include/grt/common/const.h", C + "src/dynamic/grt_greenfn.c", C + "src/dynamic/grt_syn.c", C + "src/static/grt_static_syn.c", C + "src/okada/grt_okada.c", C + "src/modal/grt_eigenv.c"],
     [("mandatory-option macro", C + "include/grt/common/checkerror.h"), ("common option cases", C + "include/grt/common/const.h")],
     "presence-flag hypothesis propagation from the option loop to a command's successful end (LLVM IR)",
     "Static: 82 rules plus unknown option / missing argument per command, all paths. Presence flags are found as the cells set while an option is handled.")


prop("P08", "Results scale linearly with the source",
     "Synthetic seismograms and static displacements, with their spatial derivatives, are linear in the source: multiplying the source strength, all force or moment-tensor components, or the Green's functions by any factor multiplies every sample by it and changes no coordinate or header. "
     "For finite faults this holds for every positive factor applied to all slips; strain, rotation and stress are linear in the displacements they are computed from.",
     ["inputs"], "every strength, component, slip and sample value, every mechanism, output system and post-processing option",
     "Tests compare a few strengths; a threshold, clip, rounding or offset shows only outside the values they use.",
     [C + "src/common/radiation.c", C + "src/dynamic/grt_syn.c", C + "src/static/grt_static_syn.c", C + "src/okada/grt_okada.c", C + "src/common/finite_fault.c", C + "src/common/coord.c", C + "src/dynamic/grt_strain.c", C + "src/dynamic/grt_rotation.c", C + "src/dynamic/grt_stress.c", C + "src/static/grt_static_strain.c", C + "src/static/grt_static_rotation.c", C + "src/static/grt_static_stress.c"],
     [("radiation factors", C + "src/common/radiation.c"), ("weighted sum of Green's functions", C + "src/dynamic/grt_syn.c"), ("sum over sub-faults", C + "src/static/grt_static_syn.c")],
     "homogeneity-degree abstract interpretation of whole commands (LLVM IR, per call path, 19 option scenarios)",
     "Static, all values and paths; real-number arithmetic (rounding ignored). Trusts that the Fourier transform library is linear.")

prop("P09", "Scaling all densities only rescales results",
     "Multiplying every density of the medium by the same positive factor divides every Green's function (dynamic and static, with its spatial derivatives) by that factor and leaves the displacements of a prescribed fault slip and the surface-wave phase velocities unchanged. "
     "Densities stored with the results are multiplied by the factor; coordinates, times, velocities and all other stored values do not change, and no decision of the computation depends on the absolute size of a density.",
     ["inputs"], "every density, model, geometry, sampling and method of integration, every positive factor",
     "Tests use rocks of ordinary density; an absolute tolerance, floor or mixed-up quantity shows only for contrasts and values they do not use.",
     [C + "src/common/model.c", C + "src/dynamic/layer.c", C + "src/dynamic/grn.c", C + "src/integral/kmax.c", C + "src/static/static_layer.c", C + "src/static/static_grn.c", C + "src/static/stgrnlib.c", C + "src/modal/secular.c", C + "src/modal/root.c", C + "src/okada/grt_okada.c"],
     [("reflection and transmission matrices from density and rigidity ratios", C + "src/dynamic/layer.c"), ("source factor with the density of the source layer", C + "src/dynamic/grn.c"), ("source factor with the rigidity of the source layer", C + "src/static/static_grn.c")],
     "homogeneity-degree abstract interpretation of whole commands (LLVM IR, per call path, 5 command scenarios)",
     "Static, all values and paths; real-number arithmetic (rounding ignored), FFT library trusted to be linear. The optional integrand statistics and eigenfunctions are outside.")

prop("P10", "Velocity and time scale together",
     "Multiplying all P and S velocities (also the reference velocity, reduction velocity and frequency band) by a positive factor and dividing all times (sampling interval, delays) by it leaves the sampled shapes unchanged: every dynamic Green's function is divided by the factor, every static one by its square, displacements of prescribed fault slip do not change. "
     "Arrival times, sampling intervals and begin times stored with the traces are divided by the factor, stored velocities and frequencies multiplied by it, and no decision of the computation depends on an absolute velocity, time or frequency, except for the documented lower bounds on reference velocity and frequency.",
     ["inputs"], "every velocity, sampling interval, delay, attenuation, geometry and method of integration, every positive factor",
     "Tests use models of the earth's crust with seconds of time; a hard-wired velocity, time or frequency shows only at other scales (laboratory, engineering, regional).",
     [C + "src/common/model.c", C + "src/common/attenuation.c", C + "src/common/travt.c", C + "src/dynamic/grt_greenfn.c", C + "src/dynamic/grn.c", C + "src/dynamic/grnspec.c", C + "src/dynamic/layer.c", C + "src/integral/kmax.c", C + "src/static/static_grn.c", C + "src/okada/okada.c"],
     [("integration limits from frequency over reference velocity", C + "src/dynamic/grn.c"), ("travel times", C + "src/common/travt.c"), ("attenuation relative to the highest frequency", C + "src/common/attenuation.c")],
     "homogeneity-degree abstract interpretation of whole commands (LLVM IR, per call path, 4 command scenarios)",
     "Static, all values and paths; real-number arithmetic (rounding ignored), FFT library trusted to be linear. Surface-wave commands are outside (their root search uses absolute steps).")


prop("P11", "Messages, records, threads and environment never affect results",
     "For every command, the options that only silence messages, record the integration or set the number of threads change nothing in any result: neither which result files are written nor any value, header or attribute in them. "
     "Whether a command succeeds does not depend on silence either, and nothing that is written depends on the clock, environment variables, process identity, terminal or random numbers.",
     ["inputs", "schedules"], "every command, every combination of options and inputs, every number of threads, every environment",
     "Tests compare few runs with and without these options; a dependence can hide behind any option combination, model or size.",
     [C + "src/dynamic/grt_greenfn.c", C + "src/dynamic/grn.c", C + "src/integral/integ_process.c", C + "src/integral/dwm.c", C + "src/dynamic/grt_syn.c", C + "src/modal/grt_modsum.c", C + "src/okada/grt_okada.c", C + "src/static/grt_static_greenfn.c"],
     [("records of the integration", C + "src/integral/integ_process.c"), ("messages and progress", C + "src/dynamic/grn.c"), ("number of threads", C + "src/common/util.c")],
     "information-flow analysis with implicit flows (data and control dependence across calls) of all 20 commands (LLVM IR)",
     "Static, all paths and values. The order of floating-point accumulation across threads is the subject of P01.")

prop("P12", "Commands write only below their output path and never change inputs",
     "Every file or directory a command creates, replaces or extends lies at or below the path given as its output (records of the integration: in the documented directory beside it), whatever the other arguments, model names and file contents are. "
     "Files given as inputs are only read, even if they lie in the output directory; quantities derived from given results get new files or variables of their own and alter none that exist. Nothing is deleted, renamed or executed.",
     ["inputs"], "every command, option, path, model name and file content",
     "Tests run in fresh directories with simple names; a write outside, or onto an input, shows only for unusual paths and is destructive.",
     [C + "src/dynamic/grt_greenfn.c", C + "src/dynamic/grnspec.c", C + "src/dynamic/grt_syn.c", C + "src/dynamic/grt_kernel.c", C + "src/modal/grt_modsum.c", C + "src/common/util.c", C + "src/integral/integ_process.c", C + "src/static/stgrnlib.c", C + "src/static/grt_static_strain.c"],
     [("copy of the model kept with results", C + "src/common/util.c"), ("directories of Green's functions", C + "src/dynamic/grnspec.c"), ("new variables in a given file", C + "src/static/grt_static_strain.c")],
     "text provenance by abstract interpretation: every path as patterns over option arguments, for all 20 commands (LLVM IR)",
     "Static, all paths. Excludes the user naming one place as both input and output of different kinds, and symbolic links.")

prop("P13", "Python calls request exactly what their arguments say",
     "Every computing function of the Python interface starts the program with exactly one documented option for each argument that is given (zero, false-like and negative values included), carrying that argument's values in order and to at least 15 significant digits, and with no other option. "
     "An argument that is given is never dropped, merged with another or replaced by a default: it reaches the command line or the call raises an exception. What a call returns is read from the output that was asked for.",
     ["inputs"], "every combination of given, absent, zero and repeated arguments of every computing function",
     "Tests call each function with a few combinations; a dropped zero, a swapped pair or an option lost in one combination runs without any error and gives the wrong result.",
     ["pygrt/pymod.py", "pygrt/utils.py", "pygrt/cli.py"],
     [("option dictionaries of the model methods", "pygrt/pymod.py"), ("Okada and tensor functions", "pygrt/utils.py"), ("number formatting and program start", "pygrt/cli.py")],
     "abstract interpretation with path partitioning over the Python syntax tree (argument vectors as text over the parameters)",
     "Static; every way through a function within three decisions of a way with all, and of one with the fewest, arguments given (four in the thorough tier). numpy, obspy and subprocess are trusted to behave as documented.")
