#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
S = "src/solver/"; B = "src/block/"; E = "src/block/extra/"; G = "src/signal/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Every evaluation runs each block once, only after its inputs, and completely",
"""In every evaluation of a model, each block that does work is activated at most once and only when every input it
requires has been assigned in that same evaluation, and every block whose required inputs become available is
activated. Blocks on an algebraic loop, and blocks depending on one, are never activated; the fast simulator refuses a
model that contains such blocks instead of running it. Memory inputs and integrator derivative inputs are not required,
so loops through them are not algebraic.""",
["programs", "schedules"],
"every block diagram (wiring, declaration order, nesting, feedback through memories and integrators) and every evaluation in a run: initialization, trial, intermediate and final",
"The tests run a handful of hand-made diagrams in one declaration order; whether scheduling is right for all graphs and orders, in every evaluation, cannot be sampled.",
[S+"simulator.cpp", S+"fast_simulator.cpp", B+"leaf.cpp", B+"submodel.cpp", B+"block.cpp"],
[("readiness test", B+"leaf.cpp Leaf::ready_to_process"), ("sweep until no progress", S+"simulator.cpp Simulator::process_model"),
 ("precomputed order", S+"fast_simulator.cpp FastSimulator::init")],
[("processed flag", "block already activated in this evaluation", B+"block.hpp"), ("assigned flag", "signal has a value in this evaluation", G+"value_signal.hpp")],
["activation of a block (subclass override)", "signal assigned flags"])

prop("C02", "Results do not depend on simulator kind, declaration order or nesting",
"""For the same blocks, wiring, inputs and stepper, the plain simulator, the order-reusing simulator and the fast simulator produce
the same signal values after every run. The order in which blocks are declared and the way they are grouped into (nested) submodels do not
change the values either.""",
["programs", "schedules", "configurations"],
"every model that all engines accept, every permutation of declarations, every grouping into submodels, and every run sequence",
"No test uses the order-reusing or fast simulator, nor two declaration orders of one model.",
[S+"simulator.cpp", S+"fast_simulator.cpp", B+"submodel.cpp"],
[("order reuse", S+"simulator.cpp Simulator::process_model"), ("precomputed order", S+"fast_simulator.cpp")],
None, ["signal values after run()"])

prop("C03", "Signals are always fresh: nothing leaks between evaluations",
"""Every evaluation starts from cleared signals, so no block or callback ever reads a value computed in an earlier evaluation; the input
callbacks (the simulator's and the model's own) are called in each evaluation with that evaluation's time before any block runs. After a successful init or run to time t, every signal holds the value
of the evaluation at time t.""",
["programs", "histories", "schedules"],
"every model, every sequence of init/run calls and every trial, intermediate and final evaluation within them",
"Tests look at a few final values; a stale read shows only for particular wirings, time-varying inputs and multi-evaluation steps.",
[S+"simulator_base.cpp", S+"simulator.cpp", S+"fast_simulator.cpp"],
[("clearing", S+"simulator_base.cpp reset_with_state_variables / run / init"), ("input callbacks", S+"simulator.cpp, fast_simulator.cpp process_model")],
[("assigned flag", "signal has a value in this evaluation", G+"value_signal.hpp")],
["input callback arguments", "signal values seen by blocks and after run()"])

prop("C04", "Arithmetic, source and function blocks compute their defining formula",
"""Whenever activated, constants, sources, gain, pipe, add (initial value plus all inputs), multiply (initial value times all inputs), subtract (first minus second), divide (first by second) and
user-function blocks output exactly the value given by their definition from the current inputs and the current time, for scalar, integer, boolean and array signals (arrays
element by element) alike. They depend on nothing else: not on earlier evaluations and not on how many inputs or blocks there are.""",
["inputs", "configurations"],
"every input value, parameter, number of inputs, array size and signal type the block supports",
"Only the gain block is tested, with few values; several array variants had never even been compiled.",
[E+"add.hpp", E+"multiply.hpp", E+"subtract.hpp", E+"divide.hpp", E+"gain.hpp", E+"pipe.hpp", E+"const.hpp", E+"source.hpp", E+"sources.hpp", E+"function.hpp", E+"siso_function.hpp", E+"so_function.hpp"],
[("activation functions", E+"*.hpp activation_function")], None, ["block inputs and outputs at activation"])

prop("C05", "A memory outputs its initial value, then its input at the last accepted step",
"""A memory block outputs its initial value until the first completed (accepted) time step and afterwards, in every evaluation, the value its input had at the most recent accepted step. Trial
and rejected evaluations never change it. Memories therefore break feedback loops: a loop through a memory always evaluates.""",
["histories", "inputs", "schedules"],
"every signal type, input sequence, chain or ring of memories, simulator kind and pattern of accepted and rejected steps",
"The memory test uses a few values on one chain with the plain simulator and no adaptive stepping.",
[E+"memory.hpp", S+"simulator_base.cpp"],
[("commit in post_step", E+"memory.hpp MemoryT::post_step"), ("input not required", E+"memory.hpp MemoryT::connect")],
[("stored value", "input at the last accepted step", E+"memory.hpp")], ["block output at activation"])

prop("C06", "A delay reproduces its input's recorded history, interpolated",
"""With a requested delay d no larger than the block's lifespan, a delay block outputs at time t the value of its recorded input at t-d: interpolated linearly between the two neighbouring
accepted steps, the latest recorded value if t-d is at or after the last one, and the initial input if nothing is recorded yet or t-d is not after the first recorded step. This
holds however long the simulation runs and however irregular the steps are; discarding expired samples never changes the output.""",
["histories", "inputs"],
"every sequence of step times and input values, every (possibly varying) delay up to the lifespan, scalar and array",
"The delay test checks one constant delay on one input; pruning errors show only for particular combinations of step times, lifespan and delay.",
[E+"delay.hpp"], [("sample recording and pruning", E+"delay.hpp DelayT::post_step"), ("lookup", E+"delay.hpp DelayT::activation_function")],
[("samples", "recorded (time, input) pairs within the lifespan", E+"delay.hpp")], ["block output at activation"])

prop("C07", "A derivative is the difference quotient since the last accepted step",
"""A derivative block outputs its initial value at the first step and afterwards (input now - input at the last accepted step) / (time now - time of that step). Evaluated again at the time of the last
accepted step it repeats the output it had there; trial evaluations in between do not affect it.""",
["histories", "inputs"],
"every sequence of step times and inputs, scalar and array, with or without rejected steps",
"There is no test of this block.",
[E+"derivative.hpp"], [("commit in post_step", E+"derivative.hpp DerivativeT::post_step"), ("quotient", E+"derivative.hpp activation_function")],
[("last time/input/output", "values at the last accepted step", E+"derivative.hpp")], ["block output at activation"])

prop("C08", "Integrator states are continuous and follow their own derivative input",
"""At initialization every integrator outputs its initial condition; each step starts from the value the previous accepted step (or run) ended with, and every evaluation shows each integrator exactly the
state value the stepper asked for. The stepper receives, for each state component, the value of that state's own derivative signal in that very evaluation, for any mix and number of scalar and array states.""",
["programs", "histories", "inputs"],
"every model with scalar and array states (including states whose derivative is another state, and user-defined state blocks), every run sequence and stepper",
"Tests contain no integrator at all.",
[B+"integrator_base.hpp", B+"integrator.hpp", S+"simulator_base.cpp", G+"float_signal.hpp"],
[("state vector packing", S+"simulator_base.cpp reset_with_state_variables, get_state_variables, minor_solver_step_cb"), ("state commit", B+"integrator_base.hpp")],
[("state value", "state at the last accepted step", B+"integrator_base.hpp")], ["stepper arguments", "state signal values in evaluations"])

prop("C09", "A triggered integrator restarts from zero at the step after a trigger",
"""A triggered integrator behaves as an integrator, except that if its trigger is true at an accepted step, the next step starts from zero instead of the accumulated value. One accepted trigger resets it exactly once, and
triggers seen only in trial, stage or rejected evaluations do not reset it.""",
["histories", "schedules", "inputs"],
"every trigger and derivative sequence, scalar and array, with fixed and adaptive stepping and rejected steps",
"There is no test of this block.",
[E+"triggered_integrator.hpp", S+"simulator_base.cpp"], [("latch and reset", E+"triggered_integrator.hpp pre_step/post_step")],
[("triggered", "trigger seen at the last accepted step", E+"triggered_integrator.hpp")], ["state values at step start"])

prop("C10", "An initial-value block holds the first value its input ever had",
"""An initial-value block waits for its input in the first evaluation, outputs that value, and keeps outputting exactly it in every later evaluation whatever the input does. After the first evaluation it no longer needs its input.""",
["histories", "inputs", "schedules"],
"every input sequence, declaration order, scalar and array, every simulator kind",
"There is no test of this block; it had never been compiled.",
[E+"initial_value.hpp"], [("capture", E+"initial_value.hpp activation_function")],
[("held value", "input of the first evaluation", E+"initial_value.hpp")], ["block output at activation"])

prop("C11", "Bus memory and bus pipe act on every leaf signal of a bus, matched by label",
"""A bus pipe (bus memory) makes every value signal of its input bus, at any nesting depth, appear in (be remembered into) the output bus signal with the same dotted label, whatever the order of labels in the two buses, except excluded labels and everything below an excluded sub-bus.
A bus memory starts each signal from the initial value given for its dotted label, or zero/false if none is given, and refuses initial values that match no signal.""",
["programs", "inputs", "histories"],
"every bus shape (nesting, types, label order), exclusion list and initial-value list, and every run history",
"There is no test of these blocks.",
[E+"bus_block_builder.cpp", E+"bus_memory.cpp", E+"bus_pipe.cpp", G+"bus.hpp"],
[("bus traversal", E+"bus_block_builder.cpp visit_bus"), ("per-signal blocks", E+"bus_memory.cpp, bus_pipe.cpp block_builder")],
None, ["values of the output bus signals"])

prop("C12", "Step-size control obeys the stepper's suggestions within the given limits",
"""In a run, a step is accepted if the stepper's suggested size is at least the step just tried, or if the step tried is not longer than the minimum; otherwise it is retried from the same time with the suggested size limited to [minimum, maximum],
and a retry that was asked to be at or below the minimum is always accepted. After an accepted step the next one has the suggested size limited to [minimum, maximum] and never passes the target; the first step of each run has the maximum size or ends at the target.
Hence accepted steps are contiguous and the run ends exactly at the requested time.""",
["schedules", "inputs", "configurations"],
"every sequence of stepper suggestions, every minimum < maximum, every target time",
"No test runs a stepper.",
[S+"simulator_base.cpp"], [("step loop", S+"simulator_base.cpp SimulatorBase::run")],
[("t1, t2, force_accept", "step control state", S+"simulator_base.cpp run")], ["stepper call arguments"])

prop("C13", "Only accepted steps commit; trial evaluations leave no trace",
"""Every block's end-of-step hook is called exactly once for each accepted step, at that step's end time, after an evaluation of the whole model in the accepted state, and never during a trial, a stage or a rejected step; the begin-of-step hook is called once at the start of each attempted step.
A rejected attempt leaves the state of the whole model as it was: the retry starts from the same time and the same states.""",
["schedules", "fault_sequences", "histories"],
"every pattern of accepted and rejected steps, every number of stage evaluations, every model, nesting and simulator kind",
"No test runs a stepper, let alone one that rejects steps.",
[S+"simulator_base.cpp", S+"simulator.cpp", S+"fast_simulator.cpp", B+"submodel.hpp"],
[("commit discipline", S+"simulator_base.cpp SimulatorBase::run"), ("hook forwarding", B+"submodel.hpp pre_step/post_step")],
None, ["pre_step/post_step calls (subclass override)", "stepper arguments"])

prop("C14", "Simulation time: first run initializes, going back is refused without effect",
"""The first run of a simulator that was not explicitly initialized initializes it at that time. With continuous states, running to an earlier time than the current one is refused with an exception
and changes nothing observable later; running to the current time again keeps all states and re-evaluates the model at that time.
After a successful run the current time is the requested one, and the next run starts from there.""",
["histories", "inputs"],
"every sequence of init and run calls with arbitrary (including earlier and repeated) times on every simulator kind",
"No test runs a model with states or repeats a time.",
[S+"simulator_base.cpp"], [("time checks", S+"simulator_base.cpp SimulatorBase::run"), ("implicit init", S+"simulator_base.cpp run")],
[("previous time", "time of the last completed init/run", S+"simulator_base.hpp")], ["exceptions", "stepper arguments and signal values of later runs"])

prop("C15", "Fixed-step Euler and RK4 compute the textbook formulas",
"""A step of the Euler stepper from (t0, v0) to t1 gives v0 + h f(t0, v0), and a step of the RK4 stepper gives the classical fourth-order Runge-Kutta combination of its four stages, with h = t1 - t0, for any right-hand side and any number of states. Both suggest exactly the step
they were asked to take, so their steps are never rejected, and neither alters the initial state they are given.""",
["inputs"],
"every right-hand side, state dimension, step size and start time",
"There are no stepper tests.",
[S+"euler.cpp", S+"rk4.cpp"], [("formulas", S+"euler.cpp step, rk4.cpp step")], None, ["stepper callback arguments and results"])

prop("C16", "RKF45 computes Fehlberg's fourth-order step and its step suggestion",
"""A step of the RKF45 stepper evaluates Fehlberg's six stages at their prescribed times and states and returns the fourth-order solution. With e the largest absolute difference between the fourth- and fifth-order solutions over all states, it suggests
half the step when 0.001 h / (2 e) is below 0.75^4, double the step when it is above 1.5^4 and the same step otherwise (e = 0 counts as ratio 1).""",
["inputs"],
"every right-hand side, state dimension, step size and start time, on all three sides of the two thresholds",
"There are no stepper tests.",
[S+"rkf45.cpp"], [("tableau and error control", S+"rkf45.cpp Rkf45::step")], None, ["stepper callback arguments and results"])

prop("C17", "A history keeps, for every row, the time and all tracked values recorded there",
"""After any sequence of updates of consecutive rows (possibly rewriting earlier ones), each row of a history holds the time given and the value each tracked signal had at the last update of that row - zero if it was unassigned - for scalar, integer, boolean and array signals. Growing, at any positive increment, and shrinking never
alter recorded rows; after shrinking there are exactly as many rows as recorded. A signal can be tracked once (tracking it again or tracking a non-value signal is refused with no effect), untracking removes just that signal, and neither is possible once rows were recorded.""",
["histories", "inputs"],
"every set of tracked signals, growth increment, and sequence of track/untrack/update/shrink operations",
"No test uses the history.",
[S+"history.cpp", S+"history.hpp"], [("growth", S+"history.cpp History::update"), ("shrink", S+"history.cpp shrink_to_fit")],
[("time, per-signal matrix, bottom row", "recorded data", S+"history.hpp")], ["history accessors"])

prop("C18", "CSV export writes exactly the recorded rows under the right headings",
"""An exported file has one heading line, time first and then for every tracked signal its name (or name[0], name[1], ... for the elements of an array), followed by exactly one line per recorded row in order. Every line holds the row's time and, under each heading,
the recorded value of that signal at that row, whether or not the history was shrunk.""",
["histories", "inputs"],
"every set of tracked signals and types, number of rows, growth increment, shrunk or not",
"No test exports a file.",
[S+"history.cpp"], [("export", S+"history.cpp History::export_csv")], None, ["file contents"])

prop("C19", "A signal is assigned at most once between clears and never read unassigned",
"""A value signal accepts one assignment, after which it reports being assigned and returns exactly that value until it is cleared; a second assignment is refused and leaves the first value. Reading an
unassigned signal, or assigning an array of the wrong size, is refused and leaves the signal unassigned. Signals are independent: operations on one never affect another.""",
["histories", "inputs"],
"every sequence of assign/read/clear operations on scalar, integer, boolean and array signals through any handle (checked builds)",
"One test covers a few scalar operations; other types and refused operations are not covered.",
[G+"scalar_signal.hpp", G+"int_signal.hpp", G+"bool_signal.hpp", G+"array_signal.hpp", G+"value_signal.hpp"],
[("assignment guard", G+"*_signal.hpp set_value/get_value")], [("assigned flag and value", "content of a signal", G+"value_signal.hpp")], ["exceptions", "signal values"])

prop("C20", "Signal handles are typed aliases; a refused rebinding changes nothing",
"""Copies of a signal handle, and handles made from a generic reference, denote the same signal: a change through one is seen through all, and signals stay alive as long as a handle does. Making or rebinding a typed handle from a signal
of another type is refused with an exception and leaves every existing handle as it was. Assigning one handle to another copies the value; it never rebinds.""",
["histories", "programs"],
"every sequence of creating, copying, rebinding and assigning handles over all signal types including buses",
"No test rebinds a handle or mixes types.",
[G+"signal.hpp", G+"scalar_signal.hpp", G+"array_signal.hpp", G+"bus.hpp"], [("type check", G+"signal.hpp fail_if_invalid_signal_type"), ("rebinding", G+"signal.hpp SignalT::reset")],
[("pointers", "signal a handle denotes", G+"signal.hpp")], ["handle identity and values"])

prop("C21", "Bus lookup finds the first matching label, through nested buses",
"""A bus keeps its signals in the order and under the labels given (automatic labels sig0, sig1, ... when none are given, illegal characters replaced), and gives its label to a signal that has no name. Lookup by index or by label returns the first matching signal, a dotted label descends into nested buses,
and a missing index or label is refused; the non-throwing lookup returns nothing for anything missing and the same signal as the throwing one otherwise.""",
["inputs", "programs"],
"every bus content, nesting depth, label (including repeated, odd and dotted ones) and lookup key",
"The bus test looks up a few labels of one bus.",
[G+"bus.hpp"], [("lookup", G+"bus.hpp BusImpl::at, try_at"), ("labels", G+"bus.hpp BusImpl constructor")], None, ["lookup results"])

prop("C22", "Names are always legal and paths spell out the hierarchy",
"""The name of every block and signal consists only of ASCII letters, digits and underscores: each other byte of a given name is replaced by an underscore, legal bytes and the length are kept, at creation and at renaming. A block's full name is the names of its
ancestors from the root down and its own, each preceded by a slash, and follows later renamings.""",
["inputs", "programs"],
"every byte string as a name and every hierarchy depth",
"No test looks at names other than simple ones.",
["src/shared/named_object.cpp", "src/shared/named_object.hpp", B+"block.cpp"], [("emend", "src/shared/named_object.cpp"), ("full name", B+"block.cpp Block::full_name")], None, ["names"])

prop("C23", "The block hierarchy is a tree that visits reach completely and in order",
"""A block gets at most one parent: adding it again to the same parent has no effect, and adding it to another one, to itself or to one of its own descendants is refused and changes nothing. A visit reaches each block down to the requested level exactly once, parents before children and children in the order they were added, reports the right
level, and stops at once when the visitor asks to, telling its caller so.""",
["programs", "histories"],
"every sequence of adding blocks to submodels, every tree, level limit and stopping point, const and non-const visits",
"No test visits a hierarchy.",
[B+"submodel.cpp", B+"block.cpp", B+"block.hpp"], [("parenting", B+"block.cpp Block::set_parent, submodel.cpp link_block"), ("visit", B+"submodel.cpp Submodel::visit, const_visit")],
[("parent and children", "the tree", B+"submodel.hpp, block.hpp")], ["visitor calls"])

prop("C24", "Connecting checks port counts and happens at most once",
"""Connecting a block succeeds only if the numbers of input and output signals match what the block declares; a connection refused for its numbers leaves the block unconnected and connectable. A connected block refuses to be connected again
and keeps its signals. Every value signal directly wired to a block is recorded once, as input, output or both.""",
["inputs", "histories", "configurations"],
"every block type, number of signals offered and sequence of connection attempts",
"No test makes a wrong connection.",
[B+"block.cpp", B+"block.hpp", B+"singlei.hpp", B+"singleo.hpp"], [("checks", B+"block.cpp Block::connect"), ("links", B+"block.cpp link_signal")],
[("connected flag, buses, links", "a block's wiring", B+"block.hpp")], ["exceptions", "accessors"])

prop("C25", "The diagnostic call trace is balanced and complete in errors",
"""Whatever the library is asked to do, and whether it returns or throws, its diagnostic call trace is empty again when control returns to a caller outside the library. An error the library raises carries its
message and a trace naming the operations in progress, innermost first, including the block whose activation failed.""",
["histories", "fault_sequences", "programs"],
"every API call sequence and every place where a user function, a stepper or a check throws (checked builds)",
"No test provokes an error inside a running model.",
["src/helper/trace.hpp", "src/helper/trace.cpp", "src/helper/util.cpp"], [("tracer", "src/helper/trace.hpp PooyaTracer"), ("exception text", "src/helper/util.cpp pooya_throw_exception")],
[("trace stack", "operations in progress", "src/helper/trace.cpp")], ["trace stack size after each call", "exception text"])

prop("C26", "Release builds compute the same results as checked builds",
"""A model that runs without errors in a checked build gives the same signal values and the same stepper calls when the library is built with the checks compiled out.""",
["configurations", "programs"],
"every error-free model and run sequence, on every simulator kind",
"The tests are only built with the checks on.",
["src/helper/defs.hpp", "src/helper/verify.hpp", S+"simulator.cpp"], [("conditional compilation", "src/helper/defs.hpp, verify.hpp")], None, ["signal values and stepper calls"])

prop("C27", "Re-initializing or handing a model to another simulator continues cleanly",
"""Initializing a simulator again, at any time, or handing a model to another simulator of any kind, works like the first initialization: the model is scheduled and integrated correctly afterwards, with the current set of signals and states and starting at the new
initial time. Blocks keep the state of their last accepted step: nothing is lost, duplicated or taken from unfinished evaluations.""",
["histories", "configurations"],
"every sequence of init and run calls on any number and kinds of simulators over one model",
"No test initializes twice or uses two simulators.",
[S+"simulator_base.cpp", S+"simulator.cpp", S+"fast_simulator.cpp"], [("init", S+"simulator_base.cpp SimulatorBase::init, simulator.cpp, fast_simulator.cpp")],
[("signal lists, orders, state vector", "what a simulator knows of the model", S+"simulator_base.hpp")], ["signal values, stepper arguments"])

prop("C28", "Independent simulations do not influence each other",
"""Simulations and other objects that share no blocks and no signals are independent: whatever ran before in the process, and however the operations of several of them are interleaved - also in the middle of a step or an
evaluation, and also when each runs in a thread of its own at the same time - each of them shows exactly the values, steps, hook calls, errors and diagnostic traces that it shows alone.""",
["schedules", "histories", "programs"],
"every interleaving of the operations of any number of independent simulations (of every block type, simulator and stepper), signals, buses, histories, connections, hierarchies and steppers",
"The tests run one simulation at a time, in one thread.",
[S+"simulator_base.cpp", S+"rk4.cpp", S+"rkf45.cpp", S+"euler.cpp", B+"extra/delay.hpp", "src/helper/trace.cpp"],
[("per-object state", S+"*.hpp, "+B+"extra/*.hpp (members, no shared statics)"), ("call trace", "src/helper/trace.cpp pooya_trace_info")],
[("trace stack", "operations in progress of one thread", "src/helper/trace.cpp")], ["signal values, steps, hook calls, exception text, trace stack size"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
