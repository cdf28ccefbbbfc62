"""Writes /verif/properties.jsonl."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}})


core, std, api = "libs/core/include/rtbot/", "libs/std/include/rtbot/std/", "libs/api/"
UNIT = "The unit tests feed a handful of fixed streams and look at a few of the outputs; "

p("C01", "An input lets exactly the newer messages through, port by port",
  "For any history of messages on the ports of an Input, a message is sent on, unchanged and through the output port of the same number, "
  "exactly when its time is greater than the time of the last message that the same port sent on; messages with the same or an older time vanish without any other effect. "
  "An Output sends on every message unchanged through the port of the same number.",
  ["inputs", "histories"], "any number of ports, any order of arrival, repeated and older times, any times and values",
  UNIT + "they never interleave ports with repeated or older times over a long history.",
  [core + "Input.h", core + "Output.h"], [("Input::processData compares with the last time of the port", core + "Input.h")],
  ["what a program with an Input entry returns", "the messages of the operator"], [("lastSent", "last time sent by each port", core + "Input.h")])
p("C02", "Join emits one tuple for every common time, as soon as it is complete",
  "For any interleaving of arrivals on its ports, each with increasing times, a Join emits through port k exactly the messages of port k whose time is present on all the ports, in order of time. "
  "It emits the tuple of a time during the operation that completes it, however many ports there are; a message that has no partner never blocks, delays or replaces later tuples.",
  ["inputs", "schedules"], "any number of ports (one to twelve tried), any interleaving and any gaps of time between the ports",
  UNIT + "the number of interleavings of arrivals on several ports grows exponentially and the tests fix one or two of them for two ports.",
  [core + "Join.h"], [("queues by port and removal of what cannot be matched", core + "Join.h")], ["the messages emitted by the Join after each arrival"],
  [("dataInputs", "queue of each port", core + "Operator.h")])
p("C03", "Two stream arithmetic is computed on synchronized pairs only",
  "For any interleaving of arrivals, Plus, Minus, Multiplication, Division, And, Or, GreaterThanStream, LessThanStream and Linear emit for every time common to all their ports the result of the operation on exactly the values of that time, with that time, as soon as the last of them arrives. "
  "Linear multiplies the value of its k-th port by its k-th coefficient, with any number of ports. "
  "Division by zero and an unfulfilled stream comparison emit nothing for that time and leave the later results unaffected.",
  ["inputs", "schedules"], "all values, all interleavings of the two (or more) streams, any number of ports of Linear",
  UNIT + "they use aligned streams, mostly one pair of values, and Linear only with few ports.",
  [core + "BinaryJoin.h", core + "FilterByValue.h", std + "Linear.h", std + "Minus.h", std + "Plus.h", std + "Multiplication.h", std + "Division.h",
   std + "And.h", std + "Or.h", std + "GreaterThanStream.h", std + "LessThanStream.h"],
  [("BinaryJoin over Join", core + "BinaryJoin.h")], ["messages emitted after each arrival"])
p("C04", "A demultiplexer routes each message by its own control instructions",
  "A Demultiplexer emits a data message, unchanged and exactly once, through every output port whose control stream has the value 1 at the time of the message and through no other port, once all its controls for that time have arrived, in whichever order data and controls arrive. "
  "Control instructions older than the message are discarded; an instruction that is missing for the time of the message while a newer one is there, or that is neither 0 nor 1, is reported as an error and nothing is routed.",
  ["inputs", "schedules"], "any number of ports, any interleaving of data and control messages",
  UNIT + "controls that run ahead of or behind the data are sampled by one interleaving.",
  [core + "Demultiplexer.h"], [("control queues and their match with the data", core + "Demultiplexer.h")], ["messages emitted after each arrival, errors"],
  [("controlInputs", "pending instructions", core + "Operator.h")])
p("C05", "A variable answers every query with the value defined at its time",
  "For any interleaving of definitions and queries, each with increasing times, a Variable answers a query during the operation in which a definition not older than it is known, exactly once, with the time of the query and the value of the last definition that is not newer than the query. "
  "A query older than every definition is answered with the default value, which may be fractional; a newer query replaces an unanswered one.",
  ["inputs", "schedules"], "any interleaving of definitions and queries, any default value",
  UNIT + "definitions arriving before, after and at the time of pending queries are covered by a few examples.",
  [std + "Variable.h"], [("definitions kept up to the query", std + "Variable.h")], ["messages emitted after each definition or query"],
  [("initialized", "the first definition was used", std + "Variable.h")])
p("C06", "Windowed operators compute over exactly the last messages",
  "After any stream, MovingAverage, StandardDeviation (sample), FiniteImpulseResponse and Difference emit, for each message from the n-th on and for none before, the statistic of exactly the last n values with the time of the newest message (Difference: the last two, newest minus previous). "
  "FiniteImpulseResponse multiplies the newest value by its first coefficient. PeakDetector emits the middle message of the window, with its own time, exactly when no value of the window is greater than it.",
  ["inputs"], "all streams, window lengths from one on, any values",
  UNIT + "the statistic after the window moved many times, ties and short windows are not enumerated.",
  [core + "Operator.h", std + "MovingAverage.h", std + "StandardDeviation.h", std + "FiniteImpulseResponse.h", std + "Difference.h", std + "PeakDetector.h"],
  [("bounded input with running sum", core + "Operator.h")], ["messages emitted after each arrival"], [("Input::sum", "running sum of the window", core + "Operator.h")])
p("C07", "Accumulators summarize the whole stream, without losing a message",
  "After any stream, Count emits with each message how many messages it has received, CumulativeSum the sum of all the values received, and AutoRegressive the value plus the combination of its own previous outputs, its first coefficient applied to the most recent output and missing outputs counting as zero; each with the time of the message.",
  ["inputs", "histories"], "streams of any length and values, any coefficients",
  UNIT + "the recurrences are compared for one short stream and, in the tests, for symmetric coefficients.",
  [std + "Count.h", std + "CumulativeSum.h", std + "AutoRegressive.h"], [("state kept between messages", std + "AutoRegressive.h")],
  ["messages emitted after each arrival"], [("count / sum", "state", std + "Count.h")])
p("C08", "One message operators transform or filter each message on its own",
  "Add, Scale, Constant, Power, Identity, Function and TimeShift emit exactly one message for each message received: the value transformed by the documented formula with the same time, TimeShift the same value with the time shifted by dt times times, never below zero and without any truncation of large times. "
  "LessThan, GreaterThan and EqualTo send on exactly the messages that fulfil the comparison, unchanged. "
  "Function interpolates linearly or by Hermite cubics between its points and extends the first and last segments outside them.",
  ["inputs"], "all values, all times (including beyond 32 bits), positive, zero and negative shifts, any table of points",
  UNIT + "boundary values, times near zero or beyond 32 bits and points outside of the table are not sampled.",
  [std + "Add.h", std + "Scale.h", std + "Constant.h", std + "Power.h", std + "Identity.h", std + "Function.h", std + "TimeShift.h", std + "LessThan.h",
   std + "GreaterThan.h", std + "EqualTo.h", core + "FilterByValue.h"], [("processData of each operator", "libs/std/include/rtbot/std")],
  ["messages emitted after each arrival"])
p("C09", "ConstantResampler emits each grid point once, with the last known value",
  "For any stream with increasing times, a ConstantResampler emits the points of the grid first time + k * interval, k = 1, 2, ..., each exactly once and in order, as soon as a message at or after the point arrives, with the value of the last message whose time is not after the point.",
  ["inputs"], "any gaps of time with respect to the interval, including several points in one gap and messages exactly on the grid",
  UNIT + "they use a few gaps.", [std + "ConstantResampler.h"], [("next emission time and last value", std + "ConstantResampler.h")],
  ["messages emitted after each arrival"], [("nextEmissionTime", "next grid point", std + "ConstantResampler.h")])
p("C10", "Interpolating resamplers follow their grid, whatever the origin of time",
  "For any stream with increasing times, CosineResampler and HermiteResampler emit the points of the grid first time + k * dt, each exactly once and in order, as soon as the messages that decide its value are there, with the value of the interpolation (cosine; Hermite cubic with central differences) of the messages around it. "
  "Adding a constant to all the times adds the same constant to the times of the output and changes nothing else.",
  ["inputs"], "any gaps of time with respect to dt, any origin of time up to 64 bits",
  UNIT + "they start near zero and sample one gap.", [std + "CosineResampler.h", std + "HermiteResampler.h"],
  [("time carried over from one segment to the next", std + "HermiteResampler.h")], ["messages emitted after each arrival"],
  [("carryOver", "time since the last grid point", std + "CosineResampler.h")])
p("C11", "Every emitted message reaches every connected port exactly once, in order",
  "In any program, every message that an operator emits through a port is delivered, unchanged, exactly once and in the order of emission, to every port connected to it (data and control), and every operator emits exactly what it would emit alone for the streams that reach it. "
  "The result of a debug reception holds, for every operator and port, exactly the messages emitted during it, in order, and nothing else.",
  ["programs", "inputs"], "any acyclic program with any fan-out, ports omitted in connections when there is only one, any batch of messages",
  "The existing tests run a few fixed programs; they cannot enumerate topologies with fan-out, diamonds and multi-port operators.",
  [core + "Operator.h", api + "src/Program.cpp", api + "include/rtbot/Program.h"],
  [("Operator::emit delivers and then executes the connected operators", core + "Operator.h"), ("mergeOutput accumulates the results", core + "Operator.h")],
  ["result of receive / receiveDebug"], [("outputs", "connections by port", core + "Operator.h")])
p("C12", "Results do not depend on the order in which a program is declared",
  "The messages that each operator of a program emits for given input streams do not depend on the order in which operators and connections are listed in its json, nor (apart from Variable and malformed controls) on the relative order of arrival of messages at different entry ports; only how they are spread over the receptions may change with the latter.",
  ["programs", "schedules", "configurations"], "any acyclic program, all permutations of its declaration, all interleavings of the entry ports",
  "A test fixes one declaration and one order of arrival; the property speaks of all of them.",
  [core + "Operator.h", api + "src/Program.cpp", core + "Join.h"], [("all the targets receive before any of them executes", core + "Operator.h")],
  ["result of receive / receiveDebug"])
p("C13", "Grouping messages into batches does not change the results",
  "Delivering messages one by one, as a map of batches, through the message buffer or as one batch call of the bindings gives for every operator and port the same messages in the same order, when the messages of the ports are taken in the order of the port names. "
  "Buffered messages are processed exactly once, in the order in which they were added, also when processing them fails; each program sees only its own messages, and the debug and plain variants have the same effect on the program.",
  ["inputs", "histories", "fault_sequences"], "any division of the same history into batches, through any of the entry points, including batches whose processing fails",
  "Tests use one entry point at a time; they do not compare the entry points on the same history nor continue after an error.",
  [api + "include/rtbot/FactoryOp.h", api + "src/bindings.cpp", api + "include/rtbot/Program.h"],
  [("messageBuffer", api + "include/rtbot/FactoryOp.h"), ("processBatch", api + "src/bindings.cpp")], ["results of the entry points"],
  [("messageBuffer", "messages waiting, by program and port", api + "include/rtbot/FactoryOp.h")])
p("C14", "The output of a program is exactly its selected part of the debug output",
  "For any program with an output selection, a plain reception returns exactly the operators and ports of the selection that emitted, with the same messages in the same order that a debug reception of the same messages returns for them; without a selection it returns everything. "
  "Asking for one or the other does not change the state of the program.",
  ["programs", "inputs"], "any selection: several operators, several ports of one operator, operators that emit nothing, Pipelines",
  "Tests look at one output port of one operator.", [api + "include/rtbot/Program.h"], [("outputFilter", api + "include/rtbot/Program.h")],
  ["result of receive and receiveDebug"], [("outputFilter", "selected ports by operator", api + "include/rtbot/Program.h")])
p("C15", "A restored program continues exactly as the original would have",
  "At any point of any history, saving a program and building another one from the bytes gives a program that answers every further message exactly as the original does, with the same entry, ports and output selection; for every type of operator, in whatever state its buffers and counters are. "
  "Saving changes nothing in the program that is saved, and saving the restored program gives a program equivalent too.",
  ["crash_points", "histories", "programs"], "all the points of a history at which to save, all types of operators, any times and values",
  "The existing test saves a few operators once, at one point.",
  [core + "Operator.h", core + "Message.h", api + "include/rtbot/Program.h", api + "src/Program.cpp", "libs/std/include/rtbot/std", "libs/finance/include/rtbot/finance"],
  [("collect / restore of each operator", core + "Operator.h")], ["results after the restoration"],
  [("bytes", "saved program", api + "src/Program.cpp")])
p("C16", "Saving and restoring reaches the operators inside pipelines",
  "At any point of any history, a program that contains Pipelines, also nested ones and ones with several entries, is restored from its bytes with the state of all the operators inside them, and continues exactly as the original; so does the rest of the program around them.",
  ["crash_points", "histories", "programs"], "all the points of a history, pipelines with any operators inside, nested pipelines",
  "No test saves a program with a Pipeline.", [api + "include/rtbot/Pipeline.h", api + "src/Pipeline.cpp"],
  [("Pipeline::collect / restore", api + "include/rtbot/Pipeline.h")], ["results after the restoration"], [("all_op", "operators inside", api + "include/rtbot/Pipeline.h")])
p("C17", "A pipeline behaves as its operators would in its place",
  "A Pipeline has an input port for every unconnected data input, and an output port for every unconnected output, of the operators inside, numbered in the order of operator id and port. "
  "A program with Pipelines (nested or not) emits, from every operator outside of them and from every output port of them, exactly the messages that the same program emits when the operators inside are put in the place of the Pipeline.",
  ["programs", "inputs"], "any operators and connections inside, several inputs and outputs, nesting, ports omitted in connections",
  "Tests have two fixed pipelines.", [api + "include/rtbot/Pipeline.h", api + "src/Pipeline.cpp"], [("portsMap, inputs, outputs", api + "src/Pipeline.cpp")],
  ["result of receive / receiveDebug"], [("portsMap", "from outer to inner ports", api + "include/rtbot/Pipeline.h")])
p("C18", "A composite behaves as the same graph of operators",
  "A Composite built from create and connection calls emits, for any messages, exactly what the same operators connected in the same way emit, has the ports of its input and output operators, and passes the messages of its output on to whatever is connected to it. "
  "A second operator with a used id, a second input or output, and connections between unknown operators or ports are refused.",
  ["programs", "inputs"], "any graph of the operators that Composite can create", "One fixed composite is tested.",
  [core + "Composite.h"], [("create* and createInternalConnection", core + "Composite.h")], ["result of executeData"], [("ops", "operators inside", core + "Composite.h")])
p("C19", "Programs of the registry are isolated and live from create to delete",
  "For any sequence of creations (from json or from bytes), deletions, buffered and direct messages over several program ids: a program exists exactly between a successful creation and its deletion; a creation that fails, or whose id is taken, leaves the registry and all programs as they were; deletion reports whether the program existed and discards its state and its pending messages. "
  "No operation on one program has any effect on another, and operations on a missing program are refused or give an empty result, without creating it.",
  ["histories", "fault_sequences"], "all sequences of operations over several ids up to the explored length, including invalid programs and failing messages",
  "The tests create one or two programs and never delete, recreate or fail in between.",
  [api + "include/rtbot/FactoryOp.h", api + "src/FactoryOp.cpp", api + "src/bindings.cpp"], [("programs and messageBuffer", api + "include/rtbot/FactoryOp.h")],
  ["results of the operations of FactoryOp and of the bindings"], [("programs", "live programs", api + "include/rtbot/FactoryOp.h")])
p("C20", "Only well formed programs are created, with the documented defaults",
  "A program is created exactly when its operators are of known types with their required parameters, every connection refers to existing operators and ports (a port may be omitted exactly when there is only one), and the entry operator exists and has no control ports; anything else is refused with an error and no program results. "
  "An optional parameter that is left out has the value that the published schema gives as default; validation of a program or an operator accepts and rejects what the published schema says.",
  ["programs", "configurations"], "every single defect of every kind at every place of a program, and every optional parameter",
  "The tests check a few valid programs and a few schema rejections.",
  [api + "src/Program.cpp", api + "src/FactoryOp.cpp", api + "src/bindings.cpp", core + "Operator.h", "libs/std/include/rtbot/std"],
  [("Program::init, Operator::connect, from_json, validate", api + "src/Program.cpp")], ["result of createProgram and validate, behaviour of the created program"])
p("C21", "The json of an operator describes the same operator",
  "For every type of operator and any parameters, writing an operator as json and reading that json gives an operator of the same type, id and ports that answers every stream exactly as the original; writing it again gives the same json. "
  "The description that a program gives of itself lists all its operators with their parameters.",
  ["configurations", "inputs"], "all types of operators, any parameters (fractional, negative, large), all streams",
  "No test reads what was written for most of the operators.", [api + "src/FactoryOp.cpp"], [("to_json / from_json", api + "src/FactoryOp.cpp")],
  ["writeOp and readOp", "getProgram"])
p("C22", "RelativeStrengthIndex follows Wilder's smoothing from its first full window on",
  "For any stream, RelativeStrengthIndex with period n emits for each message from the (n+1)-th on, with its time, 100 - 100 / (1 + gain / loss), where gain and loss are Wilder's smoothed averages of the positive and negative changes, initialised with the plain averages of the first n changes, and 100 when loss is zero.",
  ["inputs"], "all streams and periods", "One stream with period 14 is tested.", ["libs/finance/include/rtbot/finance/RelativeStrengthIndex.h"],
  [("averages kept between messages", "libs/finance/include/rtbot/finance/RelativeStrengthIndex.h")], ["messages emitted after each arrival"],
  [("averageGain, averageLoss", "smoothed averages", "libs/finance/include/rtbot/finance/RelativeStrengthIndex.h")])
p("C23", "The python builder describes, and its run executes, the program that was built",
  "The json of a python Program lists exactly the operators and connections added to it, in order, with its entry operator, output and metadata; a refused addition (an operator that is no operator, an id already used, a connection of unknown operators) changes nothing; reading a json and writing it back keeps all of it. Its diagram has one arrow for each connection, between the operators (types and parameters) and ports that it names. "
  "Run sends every row of its data exactly once, in order, column by column to the ports of the entry operator, and returns all the messages that all the operators emitted, in order, as columns of times and values; it raises an error for an invalid program or a row that fails, leaves no program registered of its own, whether it succeeds or fails, and changes neither the Program nor any other program.",
  ["programs", "inputs", "fault_sequences"], "any sequence of builder calls and any data, including failing runs",
  "The python tests need the compiled extension and check two programs.", ["libs/wrappers/python/rtbot.py", "libs/wrappers/python/rtbot.cpp"],
  [("Program.addOperator / addConnection / toJson, Run.exec", "libs/wrappers/python/rtbot.py")], ["json of the program, calls to the api, result of the run"])
p("C24", "The javascript builder and run do the same for any program and data",
  "The json of a javascript Program lists exactly the operators and connections that were added and not removed, in order, with the entry operator (the last Input added, if any) and metadata; deleting an operator removes it and the connections from and to it and nothing else, deleting a connection removes exactly that one; a second connection between the same ports, or one of unknown operators, is refused. "
  "RtBotRun creates the program, sends each row exactly once and in order, hands out every message that every operator emitted (collapsed by operator and port, or row by row), fails when the program or a row is refused, and deletes the program at the end, whether it succeeds or fails. "
  "start, processMessage, processMessageDebug and stop do the same message by message: the first port of the entry is used when none is given.",
  ["programs", "histories", "fault_sequences"], "any sequence of additions and deletions, any data, including failing runs", "The tests cover two additions.",
  ["libs/wrappers/javascript/src/program.ts", "libs/wrappers/javascript/src/api.ts", "libs/api/wasm/emscripten-bindings.cpp"],
  [("Program and RtBotRun", "libs/wrappers/javascript/src")], ["json of the program, calls to the api, outputs of the run"])
p("C25", "The rust pipelines registry maps each input key to its own pipelines",
  "After any sequence of creations, deletions (by input and output key, or all those of an input key) and receptions, there is at most one pipeline from an input key to an output key: one exists exactly between its successful creation and its deletion, together with its program in the engine. "
  "A creation that fails, or between keys that have a pipeline already, changes nothing; a deletion affects exactly the pipelines asked for, removes their programs and reports how many or an error when there was none; a message for an input key reaches each of its pipelines once and no other, and its answer lists, by output key, exactly what they emitted. No operation blocks forever.",
  ["histories"], "all sequences of registry operations over several keys and programs up to the explored length",
  "There are no tests of the registry.", ["apps/rtbot-rs/src/pipelines_registry.rs"], [("PipelinesRegistry", "apps/rtbot-rs/src/pipelines_registry.rs")],
  ["results of the operations and of the messages, programs in the engine"], [("pipelines", "id by input key and output key", "apps/rtbot-rs/src/pipelines_registry.rs")])
p("C26", "The debugger shows, for each iteration and operator, what it emitted",
  "For any result of a run and any selection of operators, the table of the command line debugger has a column for every output port of every selected operator, in the order of the program. At iteration k = 0 it has no rows; at k > 0 it shows the iterations k - 1, k, ... until k + 9 or the last one, each with exactly the messages that the port emitted in it, as time and value rounded to two decimals, and - when it emitted none. "
  "Moving forward and backward stays within 0 and the number of iterations, and the table depends only on the iteration and the selection, however they were reached; the screen shows the same table.",
  ["histories", "inputs"], "any sequence of moves and selections, any outputs including silent operators and ports",
  "There are no tests of the store.", ["apps/cli/src/tui/store.ts", "apps/cli/src/tui/index.ts", "apps/cli/src/tui/output-table.ts", "apps/cli/src/tui/select-operators-form.ts"],
  [("computeColumns", "apps/cli/src/tui/store.ts")], ["state of the store, data of the table"], [("iteration, operators", "what is shown", "apps/cli/src/tui/store.ts")])
p("C27", "What is generated from the documents of the operators agrees with them",
  "For every operator with a published document, the generated python class, javascript class, json schema, compiled in schema and zod schema accept exactly the parameters that the document describes (required ones, kinds, minimum values and lengths), refuse all others, fill in the documented defaults, and describe the operator with the type and parameters given and no others. "
  "A whole program is accepted by the json schema, by the compiled in one and by that of the javascript package exactly when its members have the documented kinds: texts for the metadata, api version v1, operators of the published types, and connections with from and to, optional ports and nothing else.",
  ["configurations", "programs"], "all published types with all combinations of right, missing and wrong parameters; all pairs of members of a program with right and wrong values",
  "There are no tests of the generator.", ["tools/generator/src/index.ts", "tools/generator/templates", core, "libs/std/include/rtbot/std"],
  [("generation of each target", "tools/generator/src/index.ts")], ["objects of the generated classes, verdicts of the schemas"])
p("C28", "The debug command reports what every operator emitted for every row",
  "For any program and csv file, the debug command runs the program over exactly the rows whose first two columns are numbers, in order, with the time scaled and rounded to the nearest integer and the value scaled, and writes one entry for each of them, with the message sent and exactly the messages that each operator and port emitted for it, to the output file, or prints it, or shows it in the debugger; verbose or not, for any number of rows. "
  "When a file is missing or unreadable, the program is not valid or the run fails, it ends with an error and writes no result.",
  ["inputs", "programs", "configurations"], "any rows (also empty and malformed ones), any scales, any number of rows, valid, invalid and failing programs, all the options",
  "There are no tests of the command.", ["apps/cli/src/commands/debug.ts", "libs/wrappers/javascript/src/api.ts"], [("action of debug", "apps/cli/src/commands/debug.ts")],
  ["file or text written by the command, table of the debugger"])
p("C29", "In redis, series are fed through the pipelines of their keys, and no others",
  "For any sequence of samples and rtbot.run / rtbot.xrun commands: the command validates the program, sends all the samples of the input series through it in order of time, replaces the output series by exactly what it emitted, and keeps the pipeline exactly when asked to. "
  "From then on each sample that is added to a series goes once through every kept pipeline of its key, and what a pipeline emits is added to its output series (and so on, through chains of pipelines) and published. "
  "A command that is refused (unknown, unparsable or invalid program, missing input, keys that have a pipeline already, wrong arguments) changes no series, pipeline or program; samples that arrive before there is any pipeline are harmless.",
  ["histories", "fault_sequences"], "all sequences of samples and commands over several keys, programs and options up to the explored length, chains of pipelines",
  "There are no tests of the module.", ["apps/redis-module/src/commands/rtbot_run.rs", "apps/redis-module/src/commands/rtbot_xrun.rs", "apps/redis-module/src/lib.rs", "apps/redis-module/src/program_validator.rs"],
  [("run, on_generic_event", "apps/redis-module/src/commands")], ["time series, published messages, programs in the engine"],
  [("PIPELINES_REGISTRY", "kept pipelines", "apps/rtbot-rs/src/pipelines_registry.rs")])

p("C30", "The server feeds redis from its input and its clients from redis",
  "At start the server stores its program and creates its input series and the pipeline over it, under keys of its own. Every text message of the input whose time, at the configured place, is a number and whose first value is a text with a number is added exactly once to the input series, in order of arrival, with that time (the time of arrival when the configuration has no place for it) and that value. "
  "Any other message, and a sample that redis refuses, is skipped and stops nothing. Every result published from then on goes exactly once, in order, as its timestamp and its values, to every client that is connected then; a client that stalls or leaves affects no other. The health check answers; unknown paths are not found.",
  ["histories", "schedules", "fault_sequences"], "any sequence of messages, publications, connections, stalls and departures of clients; any mapping of the configuration",
  "There are no tests of the server.", ["apps/rtbot-server/src/main.rs", "apps/rtbot-server/src/push_redis_service.rs", "apps/rtbot-server/src/pull_redis_service.rs", "apps/rtbot-server/src/ws_handlers.rs"],
  [("start, input and output tasks, websocket route", "apps/rtbot-server/src/main.rs")], ["commands sent to redis, messages received by clients"],
  [("clients", "connected clients", "apps/rtbot-server/src/main.rs")])
p("C31", "Operators connected by hand behave as their connections say",
  "For operators created on their own and any sequence of connect, receive and execute calls: connect accepts exactly the connections between an output port and a data or control port that exist, where an empty name stands for the only output port, or for the only input when that is a data input; any other connection, and any message for a port that does not exist, is refused and changes nothing. "
  "A message makes the receiving operator and everything reachable from it emit what they would emit in a program with the connections made until then, each under the id of its operator; a connection that is made later changes nothing about the messages received before.",
  ["histories", "configurations"], "any order of connections (right and wrong) and messages over any operators without cycles",
  "Unit tests connect a few fixed graphs, rightly, before the first message.", [core + "Operator.h", api + "include/rtbot/Pipeline.h", core + "Join.h", core + "Demultiplexer.h"],
  [("connect, receiveData, receiveControl, executeData, emit", core + "Operator.h")], ["result of connect, of executeData and executeControl"], [("outputs", "connections of each port", core + "Operator.h")])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
