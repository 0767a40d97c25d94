#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
      quantifier=dict(over=over, text=" ".join(text.split())),
      why_tests_cant=" ".join(why.split()),
      anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))
Q="quantify_scheduler/"; B=Q+"backends/"; QB=B+"qblox/"; IC=Q+"instrument_coordinator/"

p("S01","Timing constraints determine every operation's start time",
 """After compilation every operation starts exactly where its timing constraints put it: the chosen reference point
 of the operation lies the given relative time after the chosen reference point of the referenced operation (the latest
 such time when it has several constraints), a constraint without an explicit reference follows the scheduling strategy
 (as soon as possible: after the operation added before it; as late as possible: before the one added after it), and the
 whole schedule starts at zero. Durations of nested schedules, loops, conditionals and repetitions, the tabulated
 operation times and the overall duration all agree with that timeline.""",
 ["schedules","inputs"],"""For every schedule built through the public interface: any nesting of sub-schedules, loops and
 conditionals, any mix of reference points, relative times, multiple constraints and either scheduling strategy.""",
 """Tests fix a few dozen hand-made schedules; the timeline of an arbitrary constraint graph with mixed reference points,
 negative relative times, nested bodies and ALAP is never compared with an independent solver.""",
 [Q+"compilation.py",Q+"schedules/schedule.py",Q+"operations/control_flow_library.py"],
 [("_determine_absolute_timing","compilation.py"),("_make_timing_constraints_explicit","compilation.py"),("timing_table / duration","schedules/schedule.py")],
 observe=["abs_time of schedulables of a compiled schedule","timing_table","Schedule.duration / get_schedule_duration"])
p("S02","Compilation leaves its inputs untouched and is repeatable",
 """Compiling a schedule leaves the schedule, the operations in it and the compilation configuration supplied by the user
 exactly as they were, and compiling the same schedule again (in any order, after any other compilations, from the same or an equal
 schedule) produces equivalent instructions for the hardware. An operation or sub-schedule object that the user re-uses in
 several places behaves in each place as an equal but separately created object would.""",
 ["schedules","histories","configurations"],"""For every valid schedule and configuration and every history of compilations in one process,
 with operation objects shared between schedules, bodies and loops.""",
 """The tests compile a schedule once and look at one artefact; aliasing between shared operations, in-place changes by
 passes and dependence on earlier compilations only show for particular combinations of sharing and history.""",
 [B+"graph_compilation.py",Q+"compilation.py",B+"circuit_to_device.py",B+"qblox_backend.py",Q+"pulse_compensation.py"],
 [("SerialCompiler._compilation_func / keep_original_schedule","backends/graph_compilation.py"),("operation deduplication by content hash","schedules/schedule.py")],
 observe=["user schedule before/after","compilation config before/after","compiled instructions of repeated compilations"])
p("S03","Operations with different content are never conflated",
 """Operations that differ in any parameter that affects execution compare unequal and are kept apart inside a schedule, and
 operations with the same parameters compare equal, however they were created. Adding, overriding or modifying one operation
 never changes what another operation in the same or another schedule does.""",
 ["inputs","histories"],"""For all operations of the gate, pulse, acquisition and control-flow libraries and all parameter values,
 and all sequences of additions and modifications.""",
 """Schedules store each operation under a hash of its textual signature; tests check a few examples of equality, not that every parameter of every
 operation is reflected in identity or that near-equal values stay distinct.""",
 [Q+"operations/operation.py",Q+"operations/pulse_library.py",Q+"operations/acquisition_library.py",Q+"operations/gate_library.py",Q+"schedules/schedule.py"],
 [("Operation.hash / __eq__ / _get_signature","operations/operation.py"),("operation_dict","schedules/schedule.py")],
 observe=["==, hash of operations","schedule.operations after add","pulse/acquisition info resolved per schedulable"])
p("G01","Compiled drive pulses implement the circuit's unitary",
 """Interpreting the drive pulses and virtual phase shifts that a circuit compiles to as rotations in the rotating frame gives
 the same unitary on every qubit as the gates of the circuit, up to a global phase and a final frame rotation. This holds for any order of X, Y, rotation, Z, S, T and Hadamard-type gates
 and two-qubit gates, also inside sub-schedules and loops, whether or not consecutive phase gates were merged.""",
 ["programs","inputs"],"""For every circuit over the single-qubit gate set on any number of qubits with arbitrary angles, interleavings, nesting and timing references.""",
 """Tests compare pulse parameters of single gates; that merging and virtual phases keep the meaning of a whole circuit depends on gate order, sharing and
 interleaving between qubits, which examples cannot enumerate.""",
 [Q+"compilation.py",B+"circuit_to_device.py",Q+"operations/pulse_factories.py",Q+"operations/gate_library.py",Q+"device_under_test/transmon_element.py"],
 [("_merge_rz_gates","compilation.py"),("rxy_drag_pulse, phase_shift factories","operations/pulse_factories.py"),("compile_circuit_to_device","backends/circuit_to_device.py")],
 observe=["pulse_info of the device-level schedule in time order per drive clock"])
p("G02","Each gate uses the parameters of its own device element",
 """Every gate or measurement on given device elements turns into pulses and acquisitions whose amplitude, duration, ports, clocks, frequencies,
 delays, thresholds, weights and acquisition channels are those configured for exactly these elements (or this edge) at the time of compilation. A parameter
 override given with one operation changes that one operation only, multiplexed operations act as the set of their single-element parts,
 and a gate with no configuration for its elements is rejected.""",
 ["configurations","programs"],"""For every device with any number of elements and edges (superconducting and charge-sensing element types), any parameter values and any
 multiplexed or overridden gate, in any order.""",
 """Tests use one or two elements with mostly equal parameters; mixing up elements, leaking overrides between operations or stale configuration only shows with distinct random
 parameters and several operations.""",
 [B+"circuit_to_device.py",Q+"device_under_test/quantum_device.py",Q+"device_under_test/transmon_element.py",Q+"device_under_test/composite_square_edge.py",Q+"operations/measurement_factories.py",Q+"operations/pulse_factories.py"],
 [("factory dispatch and device_overrides","backends/circuit_to_device.py"),("generate_device_config","device_under_test/*")],
 observe=["pulse_info/acquisition_info of device-level schedules"])
p("C01","Pulse compensation cancels the net integral of every port",
 """With compensation requested, for each listed port the signed time-integral of everything played on it over the schedule (loops counted with
 their repetitions) plus the added compensation pulse is zero to within the hardware time grid rounding. The compensation pulse starts after
 the last pulse on that port, lasts a whole number of time-grid steps, and never exceeds the given maximum amplitude; ports not listed are left unchanged.""",
 ["schedules","inputs"],"""For all schedules of pulses on several ports with arbitrary shapes, durations, nesting and loops, and all compensation settings.""",
 """Tests use a handful of square pulses; cancellation must hold for arbitrary sums of shapes, loops and nested scopes.""",
 [Q+"pulse_compensation.py",Q+"operations/pulse_compensation_library.py"],
 [("process_compensation_pulses","pulse_compensation.py")],observe=["pulse_info and timing of the compensated schedule"])
p("Q01","Qblox sequencers play exactly the scheduled waveforms",
 """Executing the compiled sequencer programs produces on every output path, sample by sample and in every repetition, the sum of the scheduled pulses and voltage offsets of
 its port and clock at their scheduled times (within amplitude quantisation). This covers long pulses that are split up, overlapping pulses, repeated and shared waveforms, loops, nested schedules and latency corrections.""",
 ["programs","schedules","configurations"],"""For every pulse-level schedule the compiler accepts, over baseband and radio-frequency modules, real and complex channels, and any module assignment.""",
 """Tests compare program text with stored baselines for a few schedules; no test executes a program and compares the resulting signal with the schedule.""",
 [QB+"compiler_abc.py",QB+"qasm_program.py",QB+"operation_handling/pulses.py",QB+"stack_pulses.py",B+"qblox_backend.py",QB+"helpers.py",Q+"waveforms.py"],
 [("QASM generation","backends/qblox/compiler_abc.py"),("stack_pulses","backends/qblox/stack_pulses.py"),("compile_long_square_pulses_to_awg_offsets","backends/qblox_backend.py"),("waveform table","backends/qblox/helpers.py")],
 observe=["program, waveforms of each sequencer in the compiled instructions"])
p("Q02","All sequencers stay synchronised whatever path they take",
 """All sequencer programs of a compiled schedule reach the end of every repetition after exactly the same time, equal to the schedule duration plus a fixed per-repetition overhead common to all of them, and perform the requested number of repetitions. Their relative start differs only by the configured latency corrections,
 and a conditional block takes the same time whether or not its condition is met.""",
 ["programs","schedules","configurations"],"""For every accepted schedule on any number of modules and every outcome of each condition.""",
 """Drift appears only for particular combinations of long waits, loops, conditionals and latency corrections across several sequencers; no test sums execution times across sequencers.""",
 [QB+"compiler_abc.py",QB+"qasm_program.py",QB+"conditional.py",B+"qblox_backend.py",B+"corrections.py"],
 [("auto_wait, loop(), conditional()","backends/qblox/qasm_program.py"),("end-of-repetition wait","backends/qblox/compiler_abc.py"),("latency corrections","backends/corrections.py")],
 observe=["execution time of each sequencer program"])
p("Q03","Carrier frequency and phase match the schedule at every signal",
 """At the moment each pulse is played or acquisition is triggered, the local oscillator plus the modulation frequency of the sequencer equals the frequency of
 its clock at that time, and its modulation phase offset equals the sum of all phase shifts applied to that clock since the last phase reset in the repetition. Frequency
 settings outside the hardware range or inconsistent with each other are rejected.""",
 ["programs","configurations"],"""For every accepted schedule with any sequence of phase shifts, phase resets and frequency changes, and every way of specifying the frequencies in the hardware configuration.""",
 """Frequencies and phases are latched parameters: their effect depends on what else updates the sequencer and when; tests look at single instructions.""",
 [QB+"analog.py",QB+"helpers.py",QB+"operation_handling/virtual.py",QB+"compiler_abc.py",QB+"instrument_compilers.py"],
 [("assign_frequencies / determine_clock_lo_interm_freqs","backends/qblox/analog.py, helpers.py"),("Nco*Strategy","backends/qblox/operation_handling/virtual.py"),("redundant update removal","backends/qblox/compiler_abc.py")],
 observe=["program, modulation_freq and LO settings"])
p("Q04","Every acquisition fires once, on time, into a bin of its own",
 """Executing the compiled programs triggers exactly one hardware acquisition for each scheduled acquisition, repetition and loop iteration, at its scheduled time and with the
 scheduled integration length, weights, threshold and gate duration. Averaged acquisitions reuse one bin per acquisition index, appended ones use a new bin each time, no two different acquisition indices share a bin, and all bins used are declared.""",
 ["programs","schedules"],"""For every accepted schedule with any mix of acquisition protocols, bin modes, channels, loops and repetitions on readout and time-tagging modules.""",
 """Bin bookkeeping lives in registers that loop bodies and repetitions advance; only execution shows collisions or gaps, and tests look at program text for a few cases.""",
 [QB+"compiler_abc.py",QB+"qblox_acq_index_manager.py",QB+"operation_handling/acquisitions.py",QB+"analog.py",QB+"timetag.py",Q+"helpers/generate_acq_channels_data.py"],
 [("QbloxAcquisitionIndexManager","backends/qblox/qblox_acq_index_manager.py"),("bin registers","backends/qblox/compiler_abc.py")],
 observe=["acquire* events of executed programs","acquisition declarations and sequencer settings"])
p("Q05","Returned data belongs to the acquisition that is labelled with it",
 """In the dataset returned to the user every value sits at the channel, repetition, acquisition index and coordinates of the acquisition that produced it, converted as documented for its protocol.
 No value is lost, duplicated or invented: the dataset contains exactly the scheduled acquisitions, and conflicting data is reported as an error.""",
 ["schedules","histories","inputs"],"""For every accepted schedule with any mix of protocols, bin modes, loops, repetitions, coordinates and modules, and any contents of the hardware bins.""",
 """The path from schedule over hardware bins back to labelled data crosses compiler and retrieval code; tests check the two halves separately on small examples.""",
 [IC+"components/qblox.py",IC+"utility.py",IC+"instrument_coordinator.py",Q+"helpers/generate_acq_channels_data.py",QB+"qblox_acq_index_manager.py"],
 [("acquisition managers","instrument_coordinator/components/qblox.py"),("check_already_existing_acquisition, add_acquisition_coords_*","instrument_coordinator/utility.py")],
 observe=["xarray dataset from retrieve_acquisition on a dummy cluster filled with uniquely numbered bins"])
p("Q06","Compiled programs always load on the hardware, or are refused",
 """Whatever schedule is compiled, either compilation reports an error or every resulting sequence is accepted by the vendor's assembler and stays within hardware limits (instruction operands, registers, waveform and weight memory,
 bins, acquisition lengths, loop counts, sequencers per module); a program with more instructions than the sequencer holds is reported by a warning that names the limit. A schedule that fits these limits is not refused.""",
 ["programs","configurations"],"""For every schedule and hardware configuration, in particular those near the limits.""",
 """Limits bite only for unusual times, sizes and counts; tests load a few typical programs.""",
 [QB+"qasm_program.py",QB+"compiler_abc.py",QB+"register_manager.py",QB+"helpers.py",QB+"qblox_acq_index_manager.py"],
 [("auto_wait, operand ranges","backends/qblox/qasm_program.py"),("_validate_awg_dict","backends/qblox/compiler_abc.py"),("RegisterManager","backends/qblox/register_manager.py")],
 observe=["vendor assembler verdict on each compiled sequence","resource counts"])
p("Q07","Conditional operations run exactly when their measurement says so",
 """The body of a conditional operation is played on all its outputs if and only if the most recent feedback measurement of the named qubit produced the required outcome, and every measured qubit uses its own trigger address consistently between measuring and conditioned sequencers.
 Trigger state is cleared before it is used again, and conditionals that are nested or without a preceding feedback measurement are rejected.""",
 ["programs","schedules","inputs"],"""For every accepted schedule with any number of feedback measurements and conditionals on several qubits and modules (conditionals starting no earlier than the documented trigger delay after their measurement), and every combination of measurement outcomes.""",
 """Tests check instruction text for single conditionals; the outcome depends on address assignment, counters, resets and thresholds across several sequencers over time.""",
 [B+"qblox_backend.py",QB+"conditional.py",QB+"qasm_program.py",QB+"compiler_abc.py",QB+"analog.py"],
 [("compile_conditional_playback","backends/qblox_backend.py"),("FeedbackTriggerCondition","backends/qblox/conditional.py")],
 observe=["played events per outcome vector","trigger write/read settings"])
p("Q08","Hardware options reach exactly the channel they are set for",
 """Each option in the hardware configuration (frequencies, attenuation, gain, mixer and distortion corrections, latency, sequencer options, thresholds) appears with its configured value in the
 settings of the sequencer, channel or module that serves that port and clock, and of no other. Each port and clock in use is served by exactly one sequencer connected to the channels named in the connectivity, and conflicting options are rejected.""",
 ["configurations"],"""For every hardware configuration with any number and kind of modules, channels, options and port-clock combinations, in any order.""",
 """Tests use a few fixed configurations; index mix-ups between channels, sequencers and modules need asymmetric random configurations.""",
 [QB+"analog.py",QB+"instrument_compilers.py",QB+"compiler_container.py",B+"qblox_backend.py",B+"types/qblox.py",B+"types/common.py",B+"corrections.py"],
 [("ClusterModuleCompiler settings","backends/qblox/analog.py"),("ChannelPath, hardware config extraction","backends/qblox_backend.py")],
 observe=["module and sequencer settings in the compiled instructions"])
p("Q09","Digital outputs and RF switches follow the schedule",
 """Executing the compiled programs, every marker or digital output is high exactly during its scheduled pulses and at its default otherwise, on the configured line only. With automatic RF switching the switch is on from the configured buffer before to the buffer after
 every microwave pulse, and off otherwise; pulses closer than twice the buffer share one window, and a loop or conditional over whose boundary a window reaches belongs to that window as a whole.""",
 ["programs","schedules","configurations"],"""For every accepted schedule of digital, marker and microwave pulses in any nesting on any module type.""",
 """Edges are latched by other instructions' updates; tests inspect single instructions.""",
 [QB+"operation_handling/pulses.py",QB+"auto_rf_switch.py",QB+"compiler_abc.py",QB+"timetag.py",QB+"analog.py"],
 [("_replace_digital_pulses","backends/qblox/compiler_abc.py"),("auto_rf_switch_dressing","backends/qblox/auto_rf_switch.py"),("MarkerPulseStrategy","backends/qblox/operation_handling/pulses.py")],
 observe=["set_mrk / set_digital events of executed programs"])
p("Q10","Crosstalk and distortion corrections invert the configured model",
 """Applying the configured crosstalk model to the corrected pulses gives back, on every port, exactly the pulses the user scheduled, for every operation and every occurrence of it. A distortion-corrected pulse equals the configured correction function applied to the
 sampled original, clipped only as configured, and pulses on uncorrected ports are unchanged.""",
 ["configurations","schedules"],"""For every crosstalk matrix and correction configuration and every schedule of pulses, including repeated operations and nested schedules.""",
 """Tests use one pulse per operation; repeated or shared operations, several ports and nesting are where in-place corrections go wrong.""",
 [QB+"crosstalk_compensation.py",B+"corrections.py",Q+"operations/pulse_library.py"],
 [("crosstalk_compensation","backends/qblox/crosstalk_compensation.py"),("apply_software_distortion_corrections","backends/corrections.py")],
 observe=["signals of executed programs and pulse_info after the pass"])
p("Q11","Inline Q1ASM runs as written, at its time, without disturbing the rest",
 """An InlineQ1ASM operation makes the sequencer of its port and clock execute exactly the instructions of its text from its scheduled time on, every time it is played (several times, in loops and sub-schedules), with its own waveforms at the indices it uses; registers and labels (safe labels) with names that also occur elsewhere in the program or in other inline operations do not interfere.
 All other pulses of the schedule keep their times and signals. Two different waveforms under one name or index, an unconnected port or clock, and text that is no Q1ASM are rejected. (The inline program has to take the time given as its duration, to restore the offsets it changes, and not to be followed by an instruction after 1 to 3 ns.)""",
 ["schedules","inputs"],"""For every schedule and every well-formed inline program: immediate and register arguments, loops, jumps, comments, empty lines, negative numbers.""",
 """Tests compare the text of a few programs; whether registers, labels and times of arbitrary inline programs clash with the generated code shows only when the whole program is executed.""",
 [QB+"operations/inline_q1asm.py",QB+"operation_handling/q1asm_injection_strategy.py",QB+"qasm_program.py",QB+"register_manager.py",QB+"compiler_abc.py"],
 [("Q1ASMInjectionStrategy","backends/qblox/operation_handling/q1asm_injection_strategy.py"),("parse_program_line","backends/qblox/qasm_program.py")],observe=["signals of executed programs"])
p("I01","Instrument coordination follows prepare, start, wait, retrieve, stop",
 """For any sequence of user calls and component failures, each component that has instructions in the prepared schedule is prepared with exactly its own instructions, started, awaited before its data is read, and no other component is prepared, started or read; stopping reaches every component.
 Merged results contain every component's data once, and use before preparation or unknown components are rejected.""",
 ["histories","fault_sequences"],"""For every history of add, remove, prepare, start, wait, retrieve and stop calls on any set of components, with faults injected in any component call.""",
 """Tests call the methods once each with mocks; order, exclusivity and behaviour after faults over long histories are not covered.""",
 [IC+"instrument_coordinator.py",IC+"components/base.py",IC+"components/generic.py",IC+"utility.py"],
 [("InstrumentCoordinator methods","instrument_coordinator/instrument_coordinator.py")],observe=["call log of recording components"])
p("I02","Preparing hardware leaves no trace of earlier schedules",
 """After preparing a compiled schedule on a cluster, the instrument parameters and uploaded sequences that the schedule relies on have exactly the values of that schedule, whatever was prepared, changed or run before. Sequencers not used by the
 schedule are neither synchronised nor armed nor started.""",
 ["histories","configurations"],"""For every history of prepared schedules and configurations, including changes between module channels, sequencers and options, and parameters cached as already set.""",
 """The drivers are written lazily from a cache; stale values appear only after particular sequences of different schedules, while tests prepare one schedule on a fresh instrument.""",
 [IC+"components/qblox.py",IC+"utility.py",IC+"components/generic.py"],
 [("lazy_set","instrument_coordinator/utility.py"),("_configure_sequencer_settings / prepare","instrument_coordinator/components/qblox.py")],
 observe=["parameter values of a dummy cluster with history vs. a fresh one"])
p("E01","Measurements run the schedule for the current parameters",
 """Each evaluation of a schedule-based gettable builds the schedule from the parameter values of that moment (unless re-initialisation is switched off), compiles it with the current device configuration and repetitions, runs that very schedule and returns its own data, split into the documented quantities per channel.
 The instruments are stopped before each run and after each completed run, and a failure in any step surfaces as an error without returning stale data.""",
 ["histories","fault_sequences"],"""For every sequence of parameter changes, evaluations and injected failures, batched or not, any number of channels and result formats.""",
 """Tests evaluate a gettable once or twice with fixed parameters.""",
 [Q+"gettables.py",Q+"gettables_profiled.py",Q+"instrument_coordinator/instrument_coordinator.py"],
 [("ScheduleGettable.initialize/get","gettables.py"),("_process_acquired_data","quantify_core measurement control, via gettables.py")],observe=["schedule-function calls, coordinator calls and returned tuples"])
p("J01","Serialisation round-trips without loss",
 """Any operation, schedule, resource, compiled schedule (for Qblox hardware or without hardware), device element, edge, quantum device (its elements, edges and repetitions) and Qblox hardware configuration written to text and read back, in the same process or another, has the same content as the original (lists may take the place of tuples and plain numbers that of numpy ones), compiles to the same instructions, runs with the same results and serialises to the same text. Texts in the form of earlier releases (bare class names, gates on \"qubits\", schedulables as a mapping) give the same objects. A text that is cut short, is not well-formed or names an unknown type is rejected with an error.""",
 ["inputs","schedules","configurations"],"""For every object of the public libraries with any parameter values (complex, numpy, enum and nested values included; acquisition channels are strings or integers), with nested schedules and control flow.""",
 """Tests round-trip one example per class with default-like parameters.""",
 [Q+"json_utils.py",Q+"yaml_utils.py",Q+"helpers/importers.py",Q+"operations/operation.py",Q+"schedules/schedule.py",Q+"device_under_test/quantum_device.py",Q+"structure/types.py"],
 [("SchedulerJSONEncoder/Decoder","json_utils.py"),("__getstate__/__setstate__","operations, schedules, device_under_test")],observe=["to_json/from_json, to_yaml/from_yaml results"])
p("W01","Sampled waveforms follow their mathematical definition",
 """Every library waveform sampled at any valid rate, duration and amplitude equals its documented mathematical definition at each sample, is linear in its amplitude, has exactly the number of samples of its duration, and numerically given or interpolated waveforms reproduce their samples. Rotating, modulating, normalising,
 shifting and resampling helpers preserve what they promise (recoverable amplitude, phase, sample count, alignment).""",
 ["inputs"],"""For all waveform functions and helper functions over their whole parameter ranges and sampling rates.""",
 """Tests compare with a few stored arrays; the formulas must hold over continuous parameter ranges.""",
 [Q+"waveforms.py",Q+"helpers/waveforms.py",Q+"math.py",Q+"operations/pulse_library.py"],
 [("waveform functions","waveforms.py"),("sampling helpers","helpers/waveforms.py")],observe=["sampled arrays"])
p("V01","Pulse diagrams show the pulses that will be played",
 """The sampled data behind a pulse diagram contains, for every port, the sum of the scheduled waveforms and voltage offsets and the acquisition windows at their scheduled times, once per loop iteration, over the whole requested time window: sampled at the requested rate and modulated with the frequency of the clock or with the given intermediate frequency when that is requested. The plotly figure and the matplotlib figure with one subplot per port show these data. Combining the waveforms of a port gives their sum, a port list selects ports. Drawing never changes the schedule. (Digital pulses and clock phase or frequency operations are not drawn.)""",
 ["schedules","inputs"],"""For every compiled schedule with any nesting, overlapping pulses, offsets, sampling rate, time window and modulation option.""",
 """Tests compare a few diagrams; sums, clipping and loops for arbitrary schedules are not compared with an independent rendering.""",
 [Q+"schedules/_visualization/pulse_diagram.py",Q+"schedules/schedule.py",Q+"helpers/waveforms.py"],
 [("sample_schedule","schedules/_visualization/pulse_diagram.py")],observe=["sampled pulse and acquisition data"])
p("V02","Circuit diagrams and timing tables show the schedule",
 """A circuit diagram of a schedule shows every gate, measurement, pulse and acquisition once (the body of a loop is drawn once, marked with its number of repetitions), on the line of each of its device elements (pulses and acquisitions on the line of the element their port belongs to, or on "other"), in the order of execution: when every operation is given the length of one step, operations that start together share a column and operations that start later are in a column further to the right. The timing table of a compiled schedule lists every pulse and acquisition of every loop iteration, in the order of time, with its start, duration, port, clock and kind. Neither changes the schedule. (Not included: window operations and inline assembly; parallel branches of which one contains a loop or a pulse.)""",
 ["schedules"],"""For every schedule with any nesting of schedules, loops and conditionals, order of addition, reference points and mix of gates and pulses.""",
 """Tests compare a few small drawings; columns and lines for arbitrary nesting and ports are not compared with the schedule.""",
 [Q+"schedules/_visualization/circuit_diagram.py",Q+"schedules/schedule.py",Q+"compilation.py"],
 [("circuit_diagram_matplotlib","schedules/_visualization/circuit_diagram.py"),("timing_table","schedules/schedule.py")],observe=["texts, markers and lines of the drawn figure","rows of the timing table"])
p("L01","Library experiments have the timing and sweep they document",
 """Each ready-made experiment schedule, for any valid sweep values and repetitions, contains for every sweep point in order the documented operations with the documented angles, amplitudes, frequencies and separations, one acquisition per point and channel with consecutive indices, and the requested repetitions. Invalid arguments are rejected.""",
 ["inputs"],"""For all library schedule functions and all valid argument values (scalar and array sweeps, artificial detuning, calibration points, several qubits).""",
 """Tests look at one short sweep each; off-by-one, ordering and unit errors for other sweep lengths and values stay unseen.""",
 [Q+"schedules/timedomain_schedules.py",Q+"schedules/spectroscopy_schedules.py",Q+"schedules/trace_schedules.py",Q+"schedules/two_qubit_transmon_schedules.py"],
 [("schedule functions","schedules/*.py")],observe=["operations and timing of generated and compiled schedules"])
p("A01","Acquisition channels and indices describe the schedule's acquisitions",
 """The acquisition description produced by compilation lists, per channel, the protocol, the bin mode and one entry with its coordinates for every acquisition index, in time order (those of a sub-schedule together, where it starts) and once per loop iteration in append mode, numbered from zero without gaps, explicitly numbered ones first.
 Contradictory use of a channel (mixed protocols or bin modes, repeated traces, inconsistent explicit indices of averaged acquisitions) is rejected.""",
 ["schedules","inputs"],"""For every schedule with any mix of channels, protocols, bin modes, coordinates, explicit and automatic indices, nesting and loops.""",
 """Tests check small flat examples; numbering across nesting, loops and mixed explicit or automatic indices is a global property of the schedule.""",
 [Q+"helpers/generate_acq_channels_data.py",Q+"helpers/schedule.py"],
 [("generate_acq_channels_data","helpers/generate_acq_channels_data.py")],observe=["acq_channels_data in compiled instructions"])
p("Z01","Zurich Instruments programs reproduce the schedule",
 """For the Zurich Instruments backend, the compiled device settings and sequencer programs reproduce the scheduled pulses and acquisitions at their times.""",
 ["programs","configurations"],"""For every accepted schedule and hardware configuration of that backend.""",
 """Tests of this backend do not even import on this interpreter.""",
 [B+"zhinst_backend.py",B+"zhinst/"],[("compile_backend","backends/zhinst_backend.py")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
