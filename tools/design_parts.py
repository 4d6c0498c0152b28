HEAD = """# DESIGN - solver-based checking of shepherd-datalib

(generated by tools/gen_design.py from tools/design_parts.py, the harness modules and the planted changes)

## 1. What is decided, and how

Every claimed property is decided by *symbolic execution of the real Python code*: the functions of
`/repo` are imported from the working tree on every run (nothing is cached, no model of the code is
kept) and are executed with proxy objects instead of numbers, strings, arrays, files and models.

* `symx/engine.py` - proxies (`SymInt`, `SymReal`, `SymBool`, text place-holders) build z3 terms; using
  one as a branch condition is a decision.  Decisions are explored depth first by re-execution, a side
  is followed only when z3 finds it feasible; a branch whose feasibility z3 can not decide is followed
  (never dropped) and remembered.  A property is `sx.ensure(cond)` / `sx.same` / `sx.close`: z3 has to
  show that `path condition and not cond` is unsatisfiable - for *all* values within the bounds.
* `symx/arrays.py` - numpy arrays as lambda terms (symbolic length, element = function of the index),
  with slicing, masks, concatenation, resize, reductions, unsigned wrap-around and conversion, so that
  datasets of millions of samples are one query and not one query per element.
* `symx/fakeh5.py` - an in-memory h5py with symbolic dataset length, content and presence of members.
* `symx/pyd.py` - validation by pydantic (compiled code) is replaced by a symbolic counterpart that is
  *generated from the live model classes*: field types, bounds, enums, unions, defaults and the python
  validators, which themselves run symbolically.  `validate_call` wrappers are treated the same way.
* `symx/shims.py`, `symx/symtime.py`, `symx/yamlsim.py` - builtins and libraries (math, struct, bytes,
  datetime/timedelta at microsecond resolution, yaml documents holding symbolic values).
* `symx/rewrite.py` - the code under test is always compiled from its source text; for exploration the few
  operations that python resolves on builtin types, where a proxy can not take part, become calls: text
  join, `in`, sets, computed and empty dictionaries (`SymDict` tells keys apart by solver decisions),
  Counter/defaultdict, `type(x)`, f-strings holding symbolic text, imports within functions.
* Text is a list of symbolic code points (concrete length); field patterns (`^[class]+$`, lengths, strip)
  are evaluated on them; digests are opaque text produced by an injective function.
* `symx/sx.py` is the language of the harnesses in `props/cNN.py`; every harness runs in two worlds:
  symbolically, and *concretely on the unmodified code with the real libraries*.

`check.py ID` runs all cases of a property in worker processes, then starts a clean process that
replays on the uninstrumented code, with real numpy / pydantic / h5py / yaml / zstd / click:

1. every counterexample - only one that fails there too becomes a `VIOLATION` (exit 1); the replay file
   holds the inputs, `check.py ID --replay FILE` repeats it;
2. one model of every explored path (up to a cap) - the assertions must hold there as well and the
   observed values must equal the ones the symbolic run predicts, which is how the stand-ins for the
   libraries are validated on every single run.

A counterexample that does not reproduce, an operation the engine can not represent, a query z3 can
not decide and a budget that runs out are printed as `INCONCLUSIVE` and recorded in the evidence; they
are neither a pass nor an alarm.  On the unchanged tree all checks have zero of them.  A check in which
nothing at all was decided exits with 2.

Why this reaches what the tests can not: a test shows one input; here one path covers every value that
takes it (all lengths, all contents, all register values, all thresholds, all presence patterns), and
the paths are enumerated by the solver, not chosen by someone.

## 2. Numbers

Integers are exact; floats are exact reals by default, with the tolerance of each assertion covering
the rounding (given per property below).  Where rounding *is* the property (C29: end of a float range,
number of steps) the arithmetic is done with a sound interval of 3 ulp; squares roots are `r >= 0 and
r*r = x`, quotients / floors are introduced by their defining inequalities.  uint32/uint64 conversions
wrap or clamp like numpy / HDF5 do (replay confirms that).

## 3. What is trusted

z3; the engine's models of numpy, h5py, pydantic, yaml and datetime (validated by replaying path
models on the real ones, 300 per property and run); `props/*.py` as formalisation of the statement.
Paths are explored within a time budget; when it runs out the case is inconclusive, not passed.

## 4. Cost

All quick checks together need about 12 minutes on 8 cores (1 s to 90 s each; the limit per check is
900 s). `--tier thorough` extends lengths, counts and case lists as stated in the bounds below.
"""

HOW.update({
"C01": "real CalibrationPair.si_to_raw / raw_to_si on symbolic gain, offset, value and on arrays of symbolic length; oracle: raw -> SI -> raw is the identity, |raw - exact| <= 1/2, clamp at zero, scalar == array element",
"C02": "to_bytestr / from_bytestr with 16 symbolic doubles through a modelled struct codec; oracle: positional table of channels written down from the statement, identity of the round trip, length and gain checks",
"C03": "export_for_sysfs of harvester and emulator with all channels symbolic at once; oracle: formula of each key, register range or ValueError",
"C04": "conversion functions of commons/reference calibration and CalibrationSeries.from_cal with symbolic values and pairs of values (monotony); oracle: range, one-LSB inverse, right channel per port",
"C05": "Writer.append_iv_data_raw / _si on an arbitrary file state (lengths and contents symbolic); oracle: length equation, prefix unchanged, new samples in order, n-th time stamp. One append from any state = induction step over histories",
"C06": "real Writer opened, filled and left by normal end / exception; oracle: floor to the buffer size for default rate, untouched otherwise",
"C07": "read_buffers generator on files of symbolic length and content; oracle: element k of buffer i is sample i*size+k",
"C08": "Writer then Reader through the fake file, all argument combinations; oracle: what was written is read",
"C09": "is_valid() with the presence of every member symbolic; oracle: boolean formula of the statement, equality (both directions); count_errors_in_log vs. count of level >= threshold",
"C10": "energy(), statistics and check_timediffs() with symbolic content and length beyond several internal chunks; oracle: sum / min / max over the whole dataset (uninterpreted sum with the splitting law), equality 'some gap differs' <=> refused",
"C11": "Writer.__init__ and unique_path on every subset of occupied names; oracle: all previous files keep identity and content",
"C12": "gpio_to_waveforms / pin look-up on symbolic traces; oracle: list of level changes computed independently",
"C13": "Uart.get_symbols & friends on waveforms built from symbolic bytes, gaps and jitter; oracle: the bytes sent and the time of each start bit",
"C14": "Uart.get_lines on symbolic symbol codes; oracle: independent splitter, concatenation is the input",
"C15": "ConverterPRUConfig.from_vsrc(VirtualSourceConfig) with all scalars symbolic; oracle: register formula and container range per field, mode bits as boolean formula",
"C16": "calc_internal_states with all parameters symbolic (nonlinear real arithmetic); oracle: energy equation",
"C17": "HarvesterPRUConfig.from_vhrv(VirtualHarvesterConfig), both directions; oracle: register formulas and the order settling <= duration <= interval",
"C18": "one step of calc_inp_power / calc_out_power / update_cap_storage from an arbitrary state (all registers symbolic), i.e. an inductive step; oracle: bounds of storage voltage, energy balance, input power bound",
"C19": "update_states_and_output from an arbitrary state plus short histories from construction; oracle: hysteresis automaton written from the statement",
"C20": "get_input_efficiency / get_output_inv_efficiency with distinct values in every cell; oracle: cell computed by inequalities on the operating point",
"C21": "ivcurve_sample for every algorithm, one step from an arbitrary state and symbolic curves from construction; oracle: statement (age, admissibility, limits, direction)",
"C22": "target models, ADC compensation sequences, simulate_source / simulate_harvester with arbitrary model outputs; oracle: sums and written samples",
"C23": "Fixture.inheritance on every graph over 3-4 elements with symbolic values; oracle: nearest explicit value by a separate walk; inputs compared before/after",
"C24": "Experiment / TargetConfig validation with symbolic custom ids; oracle: predicate of the statement, equality (both directions)",
"C25": "TestbedTasks.from_xp on experiments with symbolic fields; oracle: field-by-field table per target",
"C26": "Testbed.get_observer and validation on every pattern of active/absent parts, symbolic ids; oracle: predicate, both directions",
"C27": "validators of tasks / features with symbolic durations, delays, instants, masks; oracle: predicate, both directions, and equality of the instant across spellings",
"C28": "to_file / from_file of the models through yaml documents with symbolic values (representers are the real ones); oracle: equality of the models",
"C29": "GpioEvent.get_events with delay, period, count symbolic, rounding modelled by intervals; oracle: length == count, k-th time",
"C30": "Firmware validation / compare_hash with uninterpreted injective hash, patcher functions on a symbolic ELF (address, endianness, content), is_hex_msp430 on symbolic records; oracle: bytes of the file before/after",
"C31": "prepare_task / extract_tasks with every subset of tasks; oracle: list in execution order, right observer",
"C32": "Reader.downsample with symbolic lengths/contents and several block sizes; filter = uninterpreted function of the stream position; oracle: output k is (filtered) input start + k*f",
"C33": "cut_and_downsample_to_file with symbolic start/end and length; oracle: range in samples, metadata equality, refusal before creation",
"C34": "click commands' functions over directories of symbolic file states (fault injection at any file); oracle: exit code formula and independence of calls",
"C35": "save_csv / save_log / waveform export on symbolic records, text decoded back; oracle: rows and columns",
"C36": "meas_to_cal and to_cal with the exact least-squares solution in place of LAPACK; oracle: normal equations, correlation threshold",
"C37": "file_to_base64 / base64_to_file / extract_firmware / Firmware on symbolic file contents (length and bytes); oracle: identity, hash predicate",
"C40": "generate_plot_data with symbolic start/end and length, matplotlib replaced by a recorder; oracle: source sample start + k*factor, units of the drawn lines",
"C41": "real pandas frames with symbolic cells through iv_model, find_oc and both trackers; oracle: diode equation on the grid, argmax and limit as predicates",
"C42": "ivonne.Reader conversions on frames with symbolic panel constants and duration, small blocks, recorded writer; oracle: length, time grid, values at recorded instants",
"C43": "get_metadata / save_metadata on in-memory files with symbolic attributes at every kind of node; oracle: the constructed tree, yaml read back",
"C44": "model validation with one symbolic character, regular expressions turned into character predicates; oracle: forbidden/printable characters as set membership",
"C45": "Fixtures/FixturesClient on collections with symbolic ids and parameters and a symbolic age of the cache file (os.stat), all histories of one earlier load; oracle: the elements of the files",
"C48": "WebClient against a recording stand-in for requests: symbolic token and account names, every refusal; oracle: what each request must carry",
"C49": "GPIO/MCU/Target/Cape/EnergyEnvironment from symbolic ids, limits and one arbitrary character, all wiring patterns; oracle: accepted exactly within the limits, kept as given",
"C46": "InventoryList.warn on symbolic uptimes, instants and version choices; oracle: thresholds and version sets",
"C47": "local_tz/local_now/local_iso_date under a symbolic clock (standard offset, daylight shift, in force or not), file_older_than on symbolic ages; replays set TZ for real",
"C39": "get_voltage_step on symbolic recordings; oracle: minimum nonzero difference in volts",
})
TAIL = """
## 6. Defects found and repaired

Each was shown by a counterexample on the real code, repaired by one `fix:` commit in /repo (stable
tests unchanged and passing) and listed in `known_findings.jsonl` as `fixed:`; the check that found it
is quiet on the repaired tree and reports the violation again when the commit is reverted.

""" + "".join("* " + l[7:].strip() + "\n" for l in open(f"{V}/known_findings.jsonl") if l.startswith("fixed:")) + """
Noticed, outside of the stated properties and left alone: statistics report a mean of means and a mean
of standard deviations (commented as wrong in the code itself); get_hash() differs for equal models
that hold time-zone-aware dates of different zones; the extracted firmware path drops the part of its
name behind the last dot (documented as "suffix adapted"); a Parity enum with swapped members;
Reader.resample ("under construction"); recordings of 1000..9999 cut samples at the default rate
come out empty because incomplete buffers are dropped on close (C33 states it).

## 7. False alarms met while building, and what was changed

* C06/C33: recordings at the default rate are stored in full buffers - the statement of C33 now says so.
* C10: jumps within the rounding boundary of the tolerance (4.9 % .. 5.1 %) are excluded.
* C16/C18/C20: absolute tolerances became relative ones (rounding at 1e18 fW is not a violation).
* C18: feedback sources may see an input above the storage voltage after steering - the bound is stated
  for the corrected input.
* C28: ids and creation times that are drawn anew are not part of minimal files - stated.
* C30: a hash is modelled as injective function; comparing with a stated hash of other spelling is out.
* Counterexamples that need an exact tie of reals which floats can not represent do not reproduce and
  stay INCONCLUSIVE; harness domains were restricted to representable grids (multiples of 2^-k) there.

## 7a. How the machinery itself is tested

* `tools/selftest_np.py` runs the array model against numpy on random concrete inputs.
* `tools/refac.py` applies behaviour-preserving edits (helpers extracted, loops rewritten, reordering,
  other spellings; `tools/refac/r*.py`) and demands that every check stays quiet; what was found there
  led to the rewriting layer above and to harnesses that only use public names.
* `tools/sweep.py` mutates the functions of a property one operator at a time and lists what neither the
  check nor the tests notice; survivors were either equivalent (logging, unreachable, rounding) or led to
  a stronger harness.
* `tools/mkseed.py`, `tools/seedtest.sh` make and judge the planted changes below.

## 8. Limits

* Concurrency: the library has none of its own (no threads, no shared state beside files), so no
  property quantifies over schedules; concurrent writers of one file are outside C11.
* Crash points: HDF5 files are not crash-safe by design; C06 covers leaving a writer by exception.
* The HDF5, zstd, pydantic-core, yaml and numpy libraries themselves are not encoded (C code); their
  stand-ins are validated by replay.
* Drawing itself, console output, the transport of the web client and inventory collection are not
  covered (what is drawn, asked and compared is: C40, C48, C46).
* Refactorings: harnesses call public functions and read public attributes only; where an internal
  method is replaced (listed as stand-in) a renaming of it would make the case inconclusive.
"""
