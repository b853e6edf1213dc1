#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

SIMS = ["src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/solver/simulator_base.cpp"]
ALLSIG = "every signal of the model after each run request (public signal accessors)"

p("C01", "Every block runs exactly once per evaluation, after all its inputs",
  "In every evaluation of a model whose data dependencies can be ordered, each block is executed exactly once, and only after every signal it reads has received its value for that evaluation. This holds whatever the order in which the blocks were created or added, however they are nested in submodels, and for every simulator variant (plain, order-reusing and precomputed-order).",
  ["schedules", "programs", "configurations"], "All acyclic-up-to-state models, all registration orders and nestings, three simulator variants, all evaluations (initialisation, stages, trials, commits).",
  "The tests run one-block models with one simulator variant; no test has two blocks whose order matters.",
  ["src/block/leaf.cpp", "src/block/submodel.cpp", "src/block/block.cpp"] + SIMS,
  [("readiness test and once-only flag", "src/block/leaf.cpp Leaf::process/ready_to_process"), ("repeat-until-no-progress loop", "src/solver/simulator.cpp process_model"), ("precomputed levels", "src/solver/fast_simulator.cpp init")],
  ["execution events of function blocks and custom leaf blocks, and whether their inputs are assigned at that moment"],
  [("processed flag", "block already executed in this evaluation", "src/block/block.hpp"), ("assigned flag", "signal has a value in this evaluation", "src/signal/value_signal.hpp")])

p("C02", "Results do not depend on block order, nesting, simulator or memory layout",
  "For a well-formed model, every signal value after every requested time equals the value that the block equations define for that time. It is therefore the same for every order of creating or adding the blocks, every nesting into submodels, every simulator variant and every placement of the objects in memory.",
  ["schedules", "programs", "configurations", "inputs"], "All well-formed models over the block library (scalar, integer, boolean, array signals), all registration orders, nestings, simulator variants, address layouts and time sequences.",
  "The tests compare single blocks with hand-computed values for one simulator variant; no two variants or orders are ever compared.",
  ["src/block/block.cpp", "src/block/submodel.cpp", "src/block/extra/add.hpp", "src/block/extra/multiply.hpp", "src/block/extra/subtract.hpp", "src/block/extra/divide.hpp", "src/block/extra/gain.hpp", "src/block/extra/so_function.hpp", "src/block/extra/siso_function.hpp", "src/block/extra/source.hpp"] + SIMS,
  [("clearing all signals and restoring states before each evaluation", "src/solver/simulator_base.cpp reset_with_state_variables"), ("address-hashed sets of signals flattened into the state vector", "src/solver/simulator_base.cpp init")],
  [ALLSIG], [("state vector layout", "position of each state in the vector given to the stepper, from pointer-hash iteration order", "src/solver/simulator_base.cpp")])

p("C03", "Fixed-step integration follows the textbook Euler and RK4 recurrences",
  "With a fixed-step method, each requested time advances all scalar and array states of the model together by exactly one Euler or classical fourth-order Runge-Kutta step from the previous requested time, up to rounding. Every stage evaluates the whole model and the external inputs at that stage's own time and state.",
  ["inputs", "programs", "histories"], "All systems of ordinary differential equations expressible as models, all increasing sequences of requested times, all simulator variants.",
  "No test integrates anything: no stepper is linked into any test.",
  ["src/solver/euler.cpp", "src/solver/rk4.cpp", "src/solver/simulator_base.cpp", "src/block/integrator_base.hpp"],
  [("stage callback", "src/solver/simulator_base.cpp run"), ("tableaux", "src/solver/euler.cpp, src/solver/rk4.cpp"), ("state load/commit", "src/block/integrator_base.hpp pre_step/post_step")],
  [ALLSIG], [("integrator value", "state at the last committed step", "src/block/integrator_base.hpp")])

p("C04", "Rejected trial steps leave no trace",
  "When a variable-step method rejects a trial step and tries a shorter one, nothing computed during the rejected trial influences any signal, block memory or state afterwards. The trajectory is the same as if only the accepted steps had ever been attempted.",
  ["fault_sequences", "histories", "programs"], "All sequences of rejected and accepted trials, all models over the block library.",
  "No test uses a stepper, so no trial step is ever rejected in them.",
  ["src/solver/simulator_base.cpp", "src/block/integrator_base.hpp", "src/block/extra/triggered_integrator.hpp", "src/block/extra/memory.hpp", "src/block/extra/delay.hpp", "src/block/extra/derivative.hpp"],
  [("state reload from the blocks before each trial", "src/solver/simulator_base.cpp run"), ("block memories written only at commit", "post_step of the memory-like blocks")],
  [ALLSIG], [("block memories", "values carried from step to step", "src/block/extra/*.hpp")])

p("C05", "Adaptive RKF45 integration honours its error tolerance",
  "The adaptive integrator advances with the fourth-order Runge-Kutta-Fehlberg solution. A trial longer than the minimum step is accepted only while the difference of the two embedded solutions stays within about 1.6e-3 per unit of time, is repeated with a shorter step otherwise, and the step grows again when the difference is far below that. So on well-conditioned problems the error at every requested time stays within a small multiple of 1e-3 times the elapsed time.",
  ["inputs", "histories", "programs"], "All smooth well-conditioned systems, all sequences of requested times, all minimum and maximum steps that do not force acceptance.",
  "No test uses the adaptive stepper.",
  ["src/solver/rkf45.cpp", "src/solver/simulator_base.cpp"],
  [("embedded pair and step-size rule", "src/solver/rkf45.cpp"), ("accept/redo decision", "src/solver/simulator_base.cpp run")],
  ["trial steps seen by a recording stepper that delegates to the real one", ALLSIG])

p("C06", "Variable-step runs always land exactly on the requested time",
  "Whatever finite step sizes a stepping method proposes, a run request ends after a bounded number of trials, and its accepted steps follow one another without gap or overlap from the current time to exactly the requested time. A repeated trial is shorter than the rejected one, and every step size chosen by the library lies between the caller's minimum and maximum, except for the first trial of a request and for the closing step shortened to land on the requested time.",
  ["fault_sequences", "schedules", "configurations"], "All finite sequences of step-size proposals, all minimum/maximum settings, all increasing sequences of requested times.",
  "No test uses a variable step method or passes step limits.",
  ["src/solver/simulator_base.cpp"],
  [("accept/redo loop with forced acceptance at the minimum step", "src/solver/simulator_base.cpp run")],
  ["start, end and proposal of every trial, recorded by a scripted stepper", "times of committed steps"])

p("C07", "Each accepted step is committed exactly once, to every block",
  "For every accepted step, every block of the model, at any nesting depth, gets its begin-of-step hook before the trials of that step, with the external inputs for that time delivered (the initialisation aside), and its end-of-step hook exactly once, at the accepted time, when all signals hold their values for that time. Commit times strictly increase as long as requested times do, the last commit of a run request is at the requested time, and stage evaluations and rejected trials never cause an end-of-step hook.",
  ["schedules", "histories", "fault_sequences", "programs"], "All models, nestings, simulator variants, step acceptances and rejections, and time sequences.",
  "The tests never look at hooks and never take a sub-step.",
  ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/submodel.hpp"],
  [("hook calls around the step loop", "src/solver/simulator_base.cpp run"), ("propagation to children", "src/block/submodel.hpp pre_step/post_step")],
  ["hook calls recorded by custom leaf blocks"])

p("C08", "Clock going backwards is refused without effect; repeating a time is harmless",
  "For a model with continuous states, a run request for a time that is not at or after the current time (earlier, or not a number) fails with an error and changes nothing: all later requests give the results they would have given without it. A request for the current time again succeeds and leaves the continuous states unchanged (apart from carrying out a pending trigger reset), and the simulation then continues normally.",
  ["fault_sequences", "histories", "configurations"], "All sequences of forward, repeated, backward and NaN time requests on models with continuous states, all simulator variants.",
  "The tests only request increasing times of stateless models.",
  ["src/solver/simulator_base.cpp", "src/block/extra/delay.hpp"],
  [("time check at the start of a request", "src/solver/simulator_base.cpp run")],
  [ALLSIG, "error or success of each request"], [("previous time", "time of the last completed request", "src/solver/simulator_base.hpp")])

p("C09", "Memory blocks and bus blocks delay or forward each signal exactly",
  "A memory block (scalar, integer, boolean or array) outputs its initial value until the first step has been committed and from then on, in every evaluation, exactly the value its input had at the latest committed step. A bus memory or bus pipe does this, or forwards the current value, for every signal of an arbitrarily nested bus independently, pairing equal labels of the two buses, honouring per-label initial values and leaving excluded labels untouched.",
  ["inputs", "programs", "histories", "schedules"], "All signal types, bus shapes and label orders, exclusions and initial values, feedback through memories, steps and sub-steps, simulator variants.",
  "The tests check the initial value of one scalar and one array memory, for one evaluation; bus memory and bus pipe are not tested.",
  ["src/block/extra/memory.hpp", "src/block/extra/bus_memory.cpp", "src/block/extra/bus_pipe.cpp", "src/block/extra/bus_block_builder.cpp", "src/block/extra/pipe.hpp"],
  [("value stored at commit, output independent of the input", "src/block/extra/memory.hpp"), ("bus traversal building one block per signal", "src/block/extra/bus_block_builder.cpp")],
  [ALLSIG], [("stored value", "input at the last commit", "src/block/extra/memory.hpp")])

p("C10", "The delay block reproduces the delayed input by interpolation",
  "The output of the delay block at time t is the linear interpolation, at t minus the current delay, of the input values at the committed times; it is the initial-value input while that instant is not after the first committed time, and the latest committed value when that instant is at or after the latest committed time. This holds for every time-varying delay up to the configured lifespan, irregular steps, intermediate evaluations and arbitrarily long runs, whatever old history has been discarded.",
  ["inputs", "histories", "schedules"], "All delay and input functions, lifespans, step sequences, run lengths, simulator variants, scalar and array signals.",
  "The tests use one constant delay far below the lifespan, a linear input and a uniform step.",
  ["src/block/extra/delay.hpp"],
  [("history pruned at commit, searched at evaluation", "src/block/extra/delay.hpp post_step/activation_function")],
  [ALLSIG], [("sample history", "committed times and input values still kept", "src/block/extra/delay.hpp")])

p("C11", "Derivative and initial-value blocks are functions of committed history",
  "A derivative block outputs its configured initial value in the first step, afterwards the difference quotient between the current input and the input at the latest committed time, and, when evaluated again at that committed time, the value it had output there. An initial-value block outputs, forever, the value its input had in the first evaluation.",
  ["inputs", "histories", "schedules"], "All input functions, step and sub-step sequences, stage evaluations of all integration methods, simulator variants, scalar and array signals.",
  "Neither block has any test; the initial-value block was not even compiled.",
  ["src/block/extra/derivative.hpp", "src/block/extra/initial_value.hpp"],
  [("previous time/input/output stored at commit", "src/block/extra/derivative.hpp post_step")],
  [ALLSIG], [("previous sample", "time, input and output at the last commit", "src/block/extra/derivative.hpp")])

p("C12", "A triggered integrator is reset exactly once per committed trigger",
  "A triggered integrator integrates like a plain integrator, and its state restarts from zero at the beginning of the step that follows each committed time at which its trigger was true, once for each such time. Trigger values seen only in intermediate stages or in rejected trials have no effect.",
  ["inputs", "histories", "schedules", "fault_sequences"], "All trigger and input functions, step, sub-step and rejection sequences, simulator variants, scalar and array signals.",
  "The block has no test.",
  ["src/block/extra/triggered_integrator.hpp", "src/block/integrator_base.hpp", "src/solver/simulator_base.cpp"],
  [("trigger latch consumed at the beginning of the next step", "src/block/extra/triggered_integrator.hpp")],
  [ALLSIG], [("trigger latch", "reset pending for the next step", "src/block/extra/triggered_integrator.hpp")])

p("C13", "A request that failed in user code can simply be retried",
  "If user code called by the library (input callback, block function or begin-of-step hook) throws during initialisation or a run request, the exception reaches the caller and the model stays at its last committed step. Retrying once the cause is gone gives the same committed values as if the failure had never happened, for every simulator variant. Error messages issued later carry no call-trace entries of the failed call.",
  ["fault_sequences", "crash_points", "histories", "programs"], "Failures at every call of user code, repeated failures, all simulator variants, methods and sub-step sequences.",
  "No test makes any user code fail.",
  ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/helper/trace.hpp"],
  [("current time advanced with the commits", "src/solver/simulator_base.cpp run"), ("order buffers swapped only after an evaluation", "src/solver/simulator.cpp"), ("initialised only when the set-up is complete", "init of the simulators"), ("scope-bound trace entries", "src/helper/trace.hpp")],
  [ALLSIG, "exceptions and their messages", "commit times"])

p("C14", "An allocation failure is an error report, not a corruption",
  "If a memory allocation fails while a simulator is being initialised or is executing a run request, or while a step is being recorded, the caller gets an exception and the process neither crashes nor corrupts memory. If no block had yet been committed, retrying gives the same results as if the failure had never happened; a retried recording gives the same record. A row that could not be recorded is not counted, and rows recorded before stay as they were.",
  ["fault_sequences", "crash_points"], "Failure of any single allocation or any run of allocations, at every point of initialisation, run requests and recording.",
  "No test makes an allocation fail.",
  ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/solver/history.cpp", "src/helper/trace.hpp"],
  [("set-up lists rebuilt from scratch by each initialisation", "init of the simulators"), ("storage created per signal on demand", "src/solver/history.cpp update")],
  [ALLSIG, "exceptions", "recorded rows"])

p("C15", "The recorder returns exactly what the signals were",
  "For every tracked signal and every recorded row, the recorder returns the row's time and the value the signal had when the row was recorded (zero if it had none), through any sequence of tracking, untracking, recording, overwriting, growth beyond the initial capacity and trimming. The number of rows is one more than the highest recorded row; tracking a signal twice, tracking something that has no value, or untracking a signal that is not tracked changes nothing.",
  ["histories", "inputs"], "All operation sequences, capacities, signal types and sizes.",
  "The recorder has no test.",
  ["src/solver/history.cpp", "src/solver/history.hpp"],
  [("row growth and trimming", "src/solver/history.cpp update/shrink_to_fit")],
  ["recorder accessors"], [("bottom row", "highest recorded row", "src/solver/history.hpp")])

p("C16", "A CSV export is complete or reports an error",
  "A CSV export of a non-empty record either produces a complete file, with a header naming time and every tracked signal (one column per array element) and one line per row of the record, those of recorded rows holding the recorded values to six significant digits whatever the program's global locale, or, memory exhaustion aside, reports an error to the caller. A failure to open, write (device full, I/O error) or close the file never passes silently, and short or interrupted writes and an untrimmed recorder never lose, add or alter a line.",
  ["fault_sequences", "histories", "inputs"], "All recorder contents and states (trimmed or not), all open, write and close failures, short and interrupted writes, at every byte of the export.",
  "The export has no test and no test makes any file operation fail.",
  ["src/solver/history.cpp"],
  [("stream output", "src/solver/history.cpp export_csv")],
  ["bytes of the file", "exceptions"])

p("C17", "Independent simulations do not influence one another",
  "Independent models, each with its own simulator and stepping-method objects, never influence each other's results, failures or error messages. This holds however their execution is interleaved: request by request, one nested in the callbacks of another, or on different threads (an error inside a nested request may list the calls around it too).",
  ["schedules", "fault_sequences"], "All interleavings, at any point of the library, of any number of independent simulations on one or more threads, also with the requests of one simulation coming from different threads one after the other, with and without failures in some of them.",
  "The tests run one simulation at a time.",
  ["src/solver/rk4.cpp", "src/solver/rkf45.cpp", "src/solver/simulator_base.cpp", "src/helper/trace.cpp", "src/helper/trace.hpp"],
  [("work arrays owned by each stepper", "src/solver/rk4.hpp, src/solver/rkf45.hpp"), ("call trace kept per thread", "src/helper/trace.cpp")],
  [ALLSIG, "exception messages"], [("call trace", "debug call stack shown in error messages", "src/helper/trace.cpp")])

p("C18", "Models that cannot be ordered are handled safely",
  "When part of a model cannot be ordered (an algebraic loop, or an input that nothing drives), every evaluation still terminates, executes each block that can be executed exactly once and no block that cannot. The precomputed-order simulator instead refuses such a model with an error, on every attempt. In debug builds the other simulators name in their diagnostics every block that was not executed, and neither an executed one nor a submodel of which every block was executed.",
  ["programs", "schedules", "histories"], "All models with loops or undriven inputs, all registration orders and nestings, all simulator variants, repeated attempts.",
  "No test has a loop or a missing input.",
  ["src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/submodel.cpp", "src/block/leaf.cpp"],
  [("fixed point of the readiness test", "src/solver/simulator.cpp process_model"), ("count of ordered blocks", "src/solver/fast_simulator.cpp init")],
  ["execution events", "exceptions", "diagnostic output"])

p("C19", "Conflicting, missing or ill-sized signal values are never silently accepted",
  "In debug builds, an evaluation in which a signal would get two values, or an array value of the wrong size, or in which the value of a signal that has none is read, always ends with an error reported to the caller. This holds whatever the block order, nesting, simulator variant and evaluation (first, stage, trial or commit) in which it first happens.",
  ["programs", "schedules", "fault_sequences"], "All positions, times and kinds of the conflicting write, short value or premature read; all orders, nestings and simulator variants.",
  "No test writes twice, reads early or mixes sizes.",
  ["src/signal/scalar_signal.hpp", "src/signal/array_signal.hpp", "src/signal/int_signal.hpp", "src/signal/bool_signal.hpp", "src/signal/value_signal.hpp", "src/solver/simulator_base.cpp"],
  [("assigned flag checked by set and get", "src/signal/*_signal.hpp"), ("flags cleared before every evaluation", "src/solver/simulator_base.cpp")],
  ["exceptions"], [("assigned flag", "signal has a value in this evaluation", "src/signal/value_signal.hpp")])

p("C20", "A fresh simulator can take over a model at its last committed time",
  "A simulator may be discarded at any moment, also after a failed request, and a new one of any variant, with any equivalent stepper object, may be created on the same model and initialised at the model's last committed time; the same simulator may be initialised again there, too, and the replaced one may be destroyed before or after that. The trajectory then continues exactly as if the current time had been requested once more from the original simulator, which for models without feedback through memories is as if it had kept running.",
  ["crash_points", "histories", "configurations"], "All points of replacement (between requests and after failures), all pairs of simulator variants, repeated replacement, models of continuous, derivative, trigger and algebraic blocks.",
  "No test creates two simulators on one model.",
  ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/integrator_base.hpp"],
  [("all state that outlives a step kept in the blocks", "src/block/integrator_base.hpp and block memories"), ("initialisation from the model alone", "init of the simulators")],
  [ALLSIG])

p("C21", "A simulation can be repeated exactly",
  "Building the same model again and making the same requests with one of the library's stepping methods gives, bit for bit, the same signal values, step sizes, state vectors, recorded rows and exported text (with its columns in the order in which the signals were tracked), and the same errors. Nothing depends on where objects lie in memory, on what memory contained before, on earlier or other simulations in the process, on the thread, or on the locale and environment of the process.",
  ["schedules", "histories", "fault_sequences", "programs", "configurations"], "All models, simulator variants, methods and request sequences, with failing user code, rejected and refused requests, and all states of the process in which the repetition takes place.",
  "The tests run everything once.",
  ["src/solver/simulator_base.cpp", "src/solver/rkf45.cpp", "src/solver/history.cpp", "src/block/block.cpp"],
  [("states and signals collected in the order of the blocks", "src/solver/simulator_base.cpp init"), ("columns in the order of tracking", "src/solver/history.cpp export_csv"), ("error estimate independent of the order of the states", "src/solver/rkf45.cpp step")],
  [ALLSIG, "trial steps", "recorder contents and exported text", "exceptions and their messages"])

p("C22", "Memory is given back, and long runs need no more of it",
  "Once a model, its simulators, stepping methods and recorders are destroyed, in whatever order, all memory they had taken is released, whether or not building the model, initialising, running or recording had failed on the way. A recorder keeps its contents after the model is gone. While a simulation runs (without a recorder), the memory in use depends on the model and on the number of steps within a delay's lifespan, not on how many steps, rejected trials, failed requests and replaced simulators there have been.",
  ["histories", "fault_sequences", "crash_points", "programs"], "All models, orders of destruction, failing allocations and failing user code at any point, all lengths of runs.",
  "No test looks at memory, makes a long run or destroys anything early.",
  ["src/signal/float_signal.hpp", "src/solver/stepper_base.hpp", "src/block/extra/delay.hpp", "src/helper/trace.hpp", "src/solver/history.hpp"],
  [("derivative signals referred to without ownership", "src/signal/float_signal.hpp"), ("old samples discarded", "src/block/extra/delay.hpp post_step"), ("destruction through base classes", "src/solver/stepper_base.hpp")],
  ["memory in use of the simulated heap", "recorder contents after the destruction of the model"])

p("C23", "Results are the same with and without debug checks",
  "For a well-formed model and any history of requests, refused requests, rejected trials, failures of user code and replaced simulators, everything that can be observed - values bit for bit, committed steps, the calls of user code and their order, trial step sizes, which requests are refused, exported records - is the same whether the library is compiled with its debug checks or without them (NDEBUG, optimised further). The checks and traces only look; nothing relies on them and nothing is done only by one of the builds.",
  ["programs", "histories", "fault_sequences"], "All models and histories that break no rule which only the debug checks report (those are in C18 and C19).",
  "All tests are compiled with debug checks only.",
  ["src/helper/defs.hpp", "src/helper/verify.hpp", "src/helper/trace.hpp", "src/signal/scalar_signal.hpp", "src/signal/array_signal.hpp", "src/solver/simulator.cpp", "src/block/extra/bus_memory.cpp"],
  [("checks that vanish without POOYA_DEBUG", "src/helper/verify.hpp"), ("call trace", "src/helper/trace.hpp"), ("accessors of signals", "src/signal/array_signal.hpp")],
  ["hash of all observations of a run in both builds"])

p("N01", "Dotted bus labels resolve to the right signal",
  "Looking up a (dotted) label or an index in a bus returns the signal stored under it at any nesting depth, and an unknown label is an error.",
  ["inputs"], "All bus shapes and labels.", "One bus with one label is tested.",
  ["src/signal/bus.hpp"], [("recursive lookup", "src/signal/bus.hpp at")], ["returned signal"])
p("N02", "Names are sanitised and qualified by their parents",
  "Every block and signal name consists of letters, digits and underscores, and a block's full name is the path of its ancestors' names.",
  ["inputs"], "All names and nestings.", "No test looks at names.",
  ["src/shared/named_object.cpp", "src/block/block.cpp"], [("character replacement", "src/shared/named_object.cpp")], ["name accessors"])
p("N03", "Wiring mistakes are refused when a block is connected",
  "Connecting a block twice, with a wrong number of inputs or outputs, or with a signal of the wrong type is refused with an error.",
  ["inputs", "programs"], "All blocks and buses.", "No test connects a block wrongly.",
  ["src/block/block.cpp", "src/signal/signal.hpp"], [("checks in connect", "src/block/block.cpp")], ["exceptions"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"]) > 80]
