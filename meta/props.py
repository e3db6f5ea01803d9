"""The properties: text, quantifiers, anchors, deciding technique."""
CORE = "knp/core-library/impl/"
INC = "knp/core-library/include/knp/core/"
PROPS = []


def p(id, title, statement, over, q, why, files, mech, tech=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files, mech=mech)
    if na:
        d["na"] = na
    else:
        d["tech"] = tech
        if note:
            d["note"] = note
    PROPS.append(d)


p("C01", "Synapse lookups always reflect the projection's current synapses",
  "Whatever sequence of additions, removals and edits a projection has gone through, a lookup of synapses by source "
  "neuron, target neuron or both returns exactly the synapses the projection holds at that moment. No mutating "
  "operation, iterator access or load may leave a stale lookup index that a later lookup trusts.",
  "histories inputs", "Every history of projection edits, for every synapse type and every lookup method.",
  "The tests edit a projection once and look up afterwards; an index that goes stale after one particular editing "
  "method, or only after a lookup in between, needs a specific history.",
  [INC + "projection.h", CORE + "projection.cpp"],
  [("index rebuilt on demand", INC + "projection.h"), ("index-updated flag cleared by mutators", CORE + "projection.cpp")],
  "abstract interpretation: typestate of the index flag over all mutators and lookups")

p("C02", "An endpoint's sender filter equals the union of its live subscriptions",
  "After any sequence of subscribing, re-subscribing, unsubscribing and removing receivers, the set of senders whose "
  "messages an endpoint is given is the union of the senders of its remaining subscriptions. Each of these operations "
  "affects the subscriptions of the named receiver and message type only, and reports whether it changed anything.",
  "histories inputs", "Every history of subscription operations on an endpoint, for every message type.",
  "The endpoint tests subscribe and receive; overlapping sender lists, removal of one of several subscriptions and "
  "moved endpoints are not sampled.",
  [INC + "message_endpoint.h", CORE + "message_endpoint.cpp", INC + "subscription.h"],
  [("sender set recomputed from subscriptions", CORE + "message_endpoint.cpp"),
   ("subscriptions keyed by message type and receiver", INC + "message_endpoint.h")],
  "abstract interpretation: effect and value rules on every subscription operation")

p("C03", "The in-process bus delivers each message once, in order, to every subscriber",
  "Every message sent through an endpoint of the in-process bus is collected exactly once, and each routing step hands "
  "it, in sending order, to every endpoint whose subscriptions name its sender and to no other. Collecting, delivering "
  "or dropping expired endpoints never loses, duplicates or reorders the messages of live endpoints, and routing ends "
  "only when nothing is left to deliver.",
  "histories schedules inputs", "All numbers of endpoints and messages, all orders of sending, receiving and routing.",
  "Tests route one or two messages between two endpoints; loss or duplication with several endpoints, an expired "
  "endpoint in the middle or several waiting messages is not sampled.",
  [CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp", CORE + "message_bus_cpu_impl/message_endpoint_cpu_impl.h",
   CORE + "message_bus.cpp"],
  [("collection of endpoint outboxes", CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp"),
   ("delivery filtered by sender", CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp")],
  "abstract interpretation: container-flow rules (what is moved where, under which conditions)")

p("C04", "Message containers shared between bus and endpoints are used under one lock",
  "Every access to the message containers and endpoint list that the in-process bus shares with its endpoints happens "
  "while holding the lock that guards them, and it is the same lock on both sides. No code path acquires that lock twice.",
  "schedules", "Every interleaving of threads sending, receiving and routing.",
  "A data race or a self-deadlock needs an interleaving; the tests run the bus from one thread.",
  [CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp", CORE + "message_bus_cpu_impl/message_bus_cpu_impl.h",
   CORE + "message_bus_cpu_impl/message_endpoint_cpu_impl.h"],
  [("bus mutex shared with its endpoints", CORE + "message_bus_cpu_impl/message_bus_cpu_impl.h")],
  "lockset analysis of every access to shared containers")

p("C05", "Packing, unpacking and streaming a message preserve every field",
  "Packing a message for transport stores every field, and unpacking reads every field back from the place packing put "
  "it, under the same type number on both sides; unknown type numbers are refused. Writing a message to a text stream "
  "and reading it back uses the same fields in the same order, and reading replaces the previous contents.",
  "inputs programs", "All messages of all message types.",
  "The round-trip tests use one message per type whose fields often coincide; swapped fields of equal type or a dropped "
  "field with a default value stay invisible.",
  [CORE + "spike_message.cpp" if False else CORE + "messaging/spike_message.cpp", CORE + "messaging/synaptic_impact_message.cpp",
   CORE + "messaging/message_envelope.cpp", CORE + "message_header.cpp"],
  [("pack/unpack pairs", CORE + "messaging"), ("message number table", CORE + "messaging/message_envelope.cpp")],
  "source-to-slot provenance analysis of writer/reader pairs (sibling agreement)")

p("C06", "Equality, ordering and moving of values cover every field",
  "Two core values (identifiers, messages, headers, impacts, subscriptions) compare equal exactly when all of their "
  "fields do, and identifiers are ordered strictly by value. A user-written move or copy of an object takes every field "
  "and base class along.",
  "inputs programs", "All pairs of values; all moved or copied objects.",
  "Comparison tests use values that differ in one chosen field; moved-from objects are not inspected field by field.",
  [INC + "messaging/message_header.h", INC + "messaging/synaptic_impact_message.h", INC + "uid.h",
   "knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp"],
  [("operator== definitions", INC + "messaging"), ("move constructors", "knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp")],
  "field-coverage analysis of comparisons, copies and moves")

p("C07", "Endpoint routing hands a received message to every matching subscription only",
  "A message an endpoint receives is stored in every subscription of its type that names its sender, and in no other; "
  "draining receives until nothing is waiting. Unloading returns the messages stored for the receiver and type asked "
  "for and leaves that store empty, so that no message is processed twice.",
  "histories inputs", "All sets of subscriptions, all message sequences.",
  "Tests use one subscription per receiver; several subscriptions of different types on one endpoint, and unloading "
  "twice, are not sampled.",
  [CORE + "message_endpoint.cpp", INC + "message_endpoint.h", INC + "subscription.h"],
  [("receive_message routes by type and sender", CORE + "message_endpoint.cpp"),
   ("unload_messages", INC + "message_endpoint.h")],
  "abstract interpretation: path conditions of every store into a subscription")

p("C08", "Iterators, lookups and fixed positions are used only where they exist",
  "No function uses an iterator or reference after the element it points at was erased, uses the result of a lookup "
  "without having established that it was found, reads a fixed or preceding position of a container that may be empty, "
  "or removes elements from the container it is walking over. This holds for every content of the containers, "
  "including empty ones.",
  "inputs histories", "All contents and sizes of containers, in every function of the core library and the framework.",
  "Undefined behaviour on an empty or missing element needs exactly that input, and often passes silently even then.",
  [CORE + "message_endpoint.cpp", INC + "projection.h", "knp/base-framework/impl/message_handlers.cpp",
   "knp/base-framework/impl/network.cpp"],
  [("lookups in maps and lists", CORE + "message_endpoint.cpp"), ("WTA handlers", "knp/base-framework/impl/message_handlers.cpp")],
  "typestate of iterators and non-emptiness along every path (whole program)")

p("C09", "Editing a population or projection changes exactly the named elements",
  "Creating, adding, setting and removing neurons and synapses affects exactly the elements named or generated: every "
  "valid generated element is stored in order, every listed or matching element is removed and no other, whatever the "
  "order of the list. Numbers reported for additions and removals are the numbers of elements added and removed, and "
  "getters return what the object was created with.",
  "inputs histories", "All generators, index lists, predicates and neuron and synapse types.",
  "Tests remove one neuron or a sorted list and use generators that always yield a value.",
  [INC + "population.h", INC + "projection.h", CORE + "population.cpp", CORE + "projection.cpp"],
  [("removal by position", CORE + "population.cpp"), ("synapse generation", CORE + "projection.cpp")],
  "abstract interpretation: value rules on constructors, additions and removals")

p("C10", "Identifiers are unique when generated and reproducible when derived",
  "A default identifier is freshly generated, one asked to be null is null and counts as invalid, and one made from a "
  "value carries that value; hashing and printing depend on the value only. Consecutive identifiers never repeat across "
  "threads, and the identifier of a CPU device is derived from its name alone, so that it is the same in every run.",
  "inputs schedules histories", "All construction sites of identifiers, all threads, all runs.",
  "Repetition across runs or threads, and an identifier silently built from a value that merely converts to a boolean, "
  "cannot be seen in one run of a test.",
  [INC + "uid.h", CORE + "uid.cpp", "knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp"],
  [("identifier construction", CORE + "uid.cpp"), ("device identifiers", "knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp")],
  "provenance analysis of identifiers; type check of every construction site")

p("C11", "Step numbers are exact: never narrowed, distances taken before rounding",
  "A simulation can run for any number of steps: on its way through messages, the backends, training, pools, monitoring and "
  "the executor a step number is never converted to a type that cannot hold every step, every field and parameter for one "
  "is wide enough, and the distance between two steps is computed exactly before it is turned into a real number. "
  "(Files hold times as real numbers; reading them is outside this property.)",
  "inputs histories", "Every step of a run of any length; every function and every conversion in the libraries.",
  "Loss of bits shows only after 2^24, 2^31 or 2^32 steps, which no test runs.",
  [INC + "core.h", INC + "messaging/message_header.h",
   "knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h"],
  [("step numbers", INC + "core.h")],
  "type-based analysis of every lossy conversion in the typed syntax tree, with a step-provenance relation on expressions")

CPU = "knp/backends/cpu/"
LIB = CPU + "cpu-library/include/knp/backends/cpu-library/"
STB = CPU + "cpu-single-threaded-backend/impl/backend.cpp"
MTB = CPU + "cpu-multi-threaded-backend/impl/backend.cpp"
STEPTECH = ("abstract interpretation of the whole step of both backends, from source, into ordered effects with their loops, "
            "guards, variant alternative and pool task; rules over those effects")

p("B01", "A simulation step runs its phases in order and advances the clock by one",
  "In both CPU backends a step that does not throw first calculates populations and then projections; between the "
  "sending and the taking of spikes, and between the sending and the taking of impacts, the bus is routed and the "
  "backend's endpoint then receives everything, unconditionally. The step number grows by exactly one per step, after all "
  "other work of the step.",
  "inputs histories", "All networks, all message contents, all steps of both backends.",
  "Tests check the spikes of a few tiny networks; a message that arrives one step late or early is visible only for "
  "particular delays and orders of populations.",
  [STB, MTB, LIB + "populations_old.h", LIB + "projections.h"],
  [("single-threaded step", STB), ("multi-threaded step", MTB)], STEPTECH)

p("B07", "A step handles every neuron, impact and spike exactly once, in phase order",
  "In every step of both CPU backends each neuron of each population starts the step once, then every impact of every "
  "message addressed to the population is applied once to the neuron it names, then each neuron finishes the step once, "
  "then synapses are trained. Each projection takes the spikes addressed to it once and queues one impact per spike for "
  "every synapse of the spiking neuron (several spikes may be merged by scaling the impact's value). This holds for "
  "every population size, part size and number of messages.",
  "inputs schedules", "All population and projection sizes, part sizes, numbers of messages and supported types.",
  "Off-by-one parts, skipped elements and dropped second messages need sizes around the part size or several "
  "presynaptic populations, which tests do not use.",
  [STB, MTB, LIB + "populations.h", LIB + "populations_old.h", LIB + "impl/projections/delta/delta_impl.h"],
  [("parts posted to the pool", MTB), ("impacts from spikes", LIB + "impl/projections/delta/delta_impl.h")], STEPTECH)

p("B08", "Impact messages carry their synapse's data and are queued for the right step",
  "An impact queued by a projection carries the index, weight (times the number of spikes it stands for), output type, "
  "source and target of one synapse of that projection, and is queued for the step that lies the synapse's delay minus one "
  "after the current one. Its message carries the projection's identifier, the current step, the projection's "
  "presynaptic and postsynaptic populations, and is forcing exactly when the projection has no plasticity.",
  "inputs", "All synapses, delays of at least one, all supported synapse types, both backends.",
  "Tests use symmetrical networks in which swapped populations or indexes make no difference.",
  [LIB + "impl/projections/delta/delta_impl.h", LIB + "projections.h"],
  [("impact construction", LIB + "impl/projections/delta/delta_impl.h")], STEPTECH)

p("B09", "A delayed impact message is sent exactly once, in the step it is queued for",
  "In every step a projection of a CPU backend sends the impact message queued for that step, if there is one, after the "
  "impacts of the step have been queued; the message then leaves the queue. Impacts queued for later steps stay "
  "untouched until their step.",
  "inputs histories", "All delays, all histories of spikes, both backends.",
  "Losing, repeating or delaying a queued message needs overlapping delays over several steps.",
  [MTB, LIB + "projections.h", LIB + "impl/projections/delta/delta_impl.h"],
  [("queue of future messages", LIB + "projections.h")], STEPTECH)

p("B10", "Populations report exactly the neurons that spiked, and only when there are any",
  "A population of a CPU backend sends one spike message in a step in which a neuron of it spikes and none otherwise. The "
  "message names the population as sender and the current step, and lists exactly the indexes of the neurons that "
  "finished the step with a spike, whatever parts the population is divided into.",
  "inputs schedules", "All populations, part sizes and thread schedules.",
  "Spikes lost or misnumbered in one part, or a message under the wrong population, need populations larger than a part.",
  [STB, MTB, LIB + "populations.h", LIB + "populations_old.h"],
  [("spike messages", LIB + "populations.h"), ("merging of parts", MTB)], STEPTECH)

p("B05", "Work handed to the thread pool is finished before its results or data are used",
  "In the multi-threaded backend every piece of work posted to the pool is waited for in the same step, on every path. "
  "Until then the step neither reads what the work changes nor changes, moves or destroys what the work uses, and "
  "everything passed to the work by reference stays alive and in place.",
  "schedules inputs", "Every interleaving of pool threads and the stepping thread, all sizes of networks and parts.",
  "A missing wait, a dangling reference or a reallocated buffer shows only under particular timing and sizes.",
  [MTB, CPU + "thread_pool/include/knp/backends/thread_pool/thread_pool.h"],
  [("posting and joining of work", MTB)],
  "task-epoch analysis: lifetimes, may-happen-in-parallel and location overlap over the effects of a step")

p("B06", "Pool tasks that run at the same time never share data without a common lock",
  "In the multi-threaded backend two tasks of the same phase never touch the same location when one of them changes it, "
  "unless both hold the same lock: tasks work on their own part of a population or projection, a projection is trained by "
  "the task of the one population it ends in, and shared queues and messages are used under one lock only.",
  "schedules inputs", "Every interleaving of pool threads, all sizes of populations, projections and parts.",
  "Data races need particular interleavings; the tests use populations smaller than one part.",
  [MTB, LIB + "populations.h", LIB + "impl/projections/delta/delta_impl.h"],
  [("parts of populations and projections", MTB), ("queue lock", LIB + "impl/projections/delta/delta_impl.h")],
  "task-epoch analysis: partition of written locations by posting loops, lock sets")

p("B02", "A run initialises once, steps while allowed, and always ends stopped",
  "Starting a backend initialises it once before its first step and then executes one step after the other exactly while "
  "it is running and the given predicates, asked once per step about the current step number, return true; a predicate "
  "that returns false ends the run. A run that a predicate or an exception of a step has ended leaves the backend not "
  "running, exceptions reach the caller, and stopping, resetting or destroying a backend clears its marks.",
  "inputs histories schedules", "Every predicate, every history of starts, stops and resets, every step that throws.",
  "Tests run short networks to completion; failing steps, predicates that refuse the first step, restarts after a stop "
  "and stops from another thread are not sampled.",
  [CORE + "backend.cpp", INC + "backend.h"],
  [("run loops", CORE + "backend.cpp"), ("running mark", INC + "backend.h")],
  "abstract interpretation of every run loop; truth tables of its step and exit conditions; exception paths")

p("B03", "Learning switches lock every projection and locked projections are not trained",
  "After stop_learning every projection of a CPU backend is locked, and after start_learning every one is unlocked, "
  "whatever its synapse type. In a step, resource-based training of a population works on exactly those projections of "
  "the trained synapse type that end in that population and are not locked.",
  "inputs histories", "All networks, all synapse types of both backends, every history of switches.",
  "The tests check trained weights of single-projection networks; mixtures of locked, unlocked, incoming and outgoing "
  "projections of several types are not sampled.",
  [STB, MTB, LIB + "populations_old.h", INC + "projection.h"],
  [("learning switches", CPU + "cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h"),
   ("choice of trained projections", LIB + "populations_old.h"), ("choice of trained projections (MT)", MTB)],
  "abstract interpretation: reach of the switches over all variant alternatives; conditions of the training selection")

p("B04", "A CPU backend carries exactly the network it was given",
  "After populations or projections are loaded into a CPU backend, it holds each element of the given list exactly once, "
  "in the given order, and nothing it held before; an element of a type the backend does not support is refused with an "
  "exception. Reading the network data back from the backend walks every held element once, from first to last, and "
  "yields the element with its current state.",
  "inputs", "All networks, every neuron and synapse type, both backends, both ways of loading.",
  "The backend tests load one or two elements and compare counts; types that are dropped quietly, repeated loads and "
  "walks that stop early need specific networks.",
  [STB, MTB, CPU + "cpu-single-threaded-backend/impl/get_network.cpp",
   CPU + "cpu-multi-threaded-backend/impl/get_network.cpp", "knp/meta-library/include/knp/meta/variant_helpers.h"],
  [("loading from a list of all types", "knp/meta-library/include/knp/meta/variant_helpers.h"),
   ("walking the held network", CPU + "cpu-single-threaded-backend/impl/get_network.cpp"),
   ("loading of supported types", STB)],
  "abstract interpretation: one insertion per element and type alternative, bounds and steps of the walk")

p("B13", "Initialisation subscribes every projection and population to what it needs",
  "When a CPU backend is initialised, every projection with a presynaptic population is subscribed to the spikes of that "
  "population, and every postsynaptic population to the synaptic impacts of each projection that ends in it. Each STDP "
  "projection is also subscribed to the spikes of every population registered for its training, and no other "
  "subscription between network parts is made.",
  "inputs", "All networks: all projections of all synapse types, with present or absent ends.",
  "Backend tests use one or two projections of one type; a missing or crossed subscription only shows in networks where "
  "several projections or training populations meet.",
  [LIB + "init.h", STB, MTB],
  [("subscriptions at initialisation", LIB + "init.h")],
  "abstract interpretation: receiver, senders, message type, loop and condition of every subscription made by _init")

p("B14", "Device selection keeps exactly the requested devices or fails",
  "Selecting devices by identifier replaces the previous selection by all available devices whose identifier was asked "
  "for, and is an error when any of them is not available. Selecting a single device makes it the only selected one.",
  "inputs histories", "Every set of identifiers and devices, every sequence of selections.",
  "The tests run on one CPU device; several devices, unknown identifiers and repeated selections are not sampled.",
  [CORE + "backend.cpp", INC + "backend.h"],
  [("device selection", CORE + "backend.cpp")],
  "abstract interpretation: conditions and loop of the selection, error exit")

p("B11", "The thread pool runs every posted task once and joining waits for all of them",
  "Every task posted to the pool is executed exactly once, by a worker or a joining thread, without the pool's lock held; "
  "joining returns only when no task of that executor is queued or running, even when a task throws. No wake-up is lost: "
  "posting, finishing the last task and stopping wake the threads concerned, and destroying the pool ends its threads "
  "after the last task. Queue, counts and state are used under the pool's lock only.",
  "schedules inputs", "Every interleaving of posting, executing, joining and stopping threads; tasks that return or throw.",
  "Lost wake-ups, early joins and miscounted exceptions need particular interleavings that a test run does not control.",
  [CPU + "thread_pool/impl/thread_pool_context.cpp",
   CPU + "thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h"],
  [("workers, queue and state", CPU + "thread_pool/impl/thread_pool_context.cpp"),
   ("posting and joining", CPU + "thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h")],
  "abstract interpretation with lock sets and exception paths; monitor-protocol rules on every thread entry")

p("B12", "Resource training only moves resource between synapses and their neuron",
  "In resource-based training everything a synapse gains its own neuron's free resource loses in the same breath, and the "
  "other way round, for the synapses of the trained projections that lead to that neuron; handing the free resource out "
  "gives each of those synapses an equal share and empties it. After every change of its resource a synapse's weight is "
  "recomputed as w_min + d * r / (d + r), with d = w_max - w_min and r the resource or zero when that is negative.",
  "inputs histories", "All networks, spikes, dopamine values, resources and training histories.",
  "The tests compare a few trained weights; a gain without a loss, a wrong neuron or a stale weight appears only under "
  "particular spike and dopamine patterns.",
  [LIB + "impl/populations/training/stdp.h", LIB + "impl/populations/blifat/blifat_stdp.h",
   LIB + "impl/populations/altai/altai_stdp.h"],
  [("Hebbian and dopamine updates", LIB + "impl/populations/blifat/blifat_stdp.h"),
   ("handing out and weights", LIB + "impl/populations/training/stdp.h")],
  "abstract interpretation: signed sums of the changes per branch condition and loop; term evaluation of the weight")

p("B15", "Elapsed steps are never computed the wrong way round or below zero",
  "Wherever the CPU backends subtract step numbers in unsigned arithmetic, the earlier recorded step is subtracted from "
  "the current one, or the code makes sure that the result is not negative (delays are at least one). A field that "
  "records a step is only ever set to the current step, and every firing neuron and every synapse of the resource rule "
  "reached by a spike records it.",
  "inputs histories", "All networks, spike patterns, periods and step numbers, from step zero on.",
  "A wrapped difference is a huge number that silently closes or opens a training window; it needs a particular order of "
  "spikes or an early step.",
  [LIB + "impl/populations/training/stdp.h", LIB + "impl/populations/blifat/blifat_stdp.h",
   LIB + "impl/projections/delta/delta_impl.h", LIB + "impl/projections/training/stdp/additive_stdp.h"],
  [("inter-spike periods", LIB + "impl/populations/training/stdp.h"),
   ("windows", LIB + "impl/populations/blifat/blifat_stdp.h")],
  "abstract interpretation: every unsigned difference classified as current step, recorded step or duration")

p("B16", "Additive STDP records each spike in the right histories and uses them once",
  "For an additive STDP projection, every spike of a population registered for its training goes with its send step into "
  "the postsynaptic history of the synapses that end in the neuron, and for populations marked STDPAndSpike also into the "
  "presynaptic history of the synapses that start from it, unless that history is full. Messages of populations marked "
  "STDPOnly then produce no impacts; others do. When both histories are full the weight changes by the sum of "
  "exp(-|d| / tau) over all pairs of spikes and both are emptied.",
  "inputs histories", "All networks with additive STDP, all spike patterns and time constants.",
  "The only test uses a network of two neurons whose source and target index coincide.",
  [LIB + "impl/projections/training/stdp/additive_stdp.h", LIB + "impl/projections/delta/delta_impl.h"],
  [("histories and weights", LIB + "impl/projections/training/stdp/additive_stdp.h")],
  "abstract interpretation: conditions, loops and targets of every history change; term evaluation of the exponent")

FWK = "knp/base-framework/"

p("F01", "A network holds each UID once, finds it, and removes just that one",
  "A population or projection enters a network, by any overload, once, and only if the network holds none with its UID; "
  "otherwise an exception is raised and nothing is stored. Asking for a UID answers with the stored element that has it "
  "and reports an exception when there is none; removing one takes exactly that element out. The counts, lists and "
  "iterators cover all stored elements, and a projection whose populations are missing is reported as such.",
  "inputs histories", "All networks, element types, UIDs and sequences of additions, lookups and removals.",
  "The tests add a handful of elements through some of the overloads; every overload and every element type has its own "
  "code, and a wrong match shows only with particular UIDs.",
  [FWK + "impl/network.cpp", FWK + "include/knp/framework/network.h"],
  [("constraints, lookups, removal", FWK + "impl/network.cpp")],
  "abstract interpretation with search loops and algorithms in one normal form: guard of every insertion, result of every lookup")

p("F02", "The loader connects exactly the channels a model names, once each",
  "Initialising a loader with a model gives the backend every population and projection of the model's network, and for "
  "every distinct channel UID of the model one channel: an input channel with the generator registered for its UID that "
  "feeds every projection listed for it, an output channel that receives from every population listed for it. A channel "
  "without a registered generator is an error, no peer is left out or connected twice, and a model returns a peer list "
  "that holds exactly what was added.",
  "inputs histories", "All models, sets of channel UIDs and peers, orders of addition and bucket layouts of the tables.",
  "Which channels share a hash bucket depends on random UIDs; the tests use one input and one output channel.",
  [FWK + "impl/model_loader.cpp", FWK + "impl/model.cpp"],
  [("channel tables, generators, subscriptions", FWK + "impl/model_loader.cpp"), ("peer lists", FWK + "impl/model.cpp")],
  "abstract interpretation of the loader with multimap walks in one normal form: one visit for every distinct key, one subscription for every peer")

p("F03", "Each step sends inputs, steps the backend, then serves outputs and observers",
  "In a run, a step that the run predicate allows sends the data of every input channel once, for that step and before the "
  "backend's step, then performs exactly one backend step and updates every output channel, message handler and observer "
  "once with the messages received for it; a step the predicate refuses sends nothing. An input channel sends what its "
  "generator produced, stamped with its own UID and the step, and nothing when there is nothing to send. Output channels "
  "keep received messages in order until they are taken.",
  "inputs histories schedules", "All models, run predicates, numbers of steps and sets of channels, handlers and observers.",
  "The tests run one network with one channel of each kind and look only at the last outputs.",
  [FWK + "impl/model_executor.cpp", FWK + "include/knp/framework/io/input_channel.h", FWK + "impl/output_channel.cpp"],
  [("run loop", FWK + "impl/model_executor.cpp"), ("input channel", FWK + "include/knp/framework/io/input_channel.h"),
   ("output channel", FWK + "impl/output_channel.cpp"), ("observer", FWK + "include/knp/framework/monitoring/observer.h")],
  "abstract interpretation of the run with predicates and callbacks entered: order, multiplicity and operands of every effect of one step")

p("F04", "Converters give exactly the spikes of the data and the window they are asked for",
  "Reading a channel buffer for steps [from, to] takes exactly the messages of that window. Output converters give, for "
  "each neuron index of the output, whether it spiked, how many times it spiked, or the set of neurons that spiked, and "
  "ignore indexes outside the output. Input converters give exactly the indexes of the values in the stream that are "
  "spikes: nothing is made from values that could not be read, and the index of a value is its position.",
  "inputs", "All message lists, windows, output sizes, streams and interpreters.",
  "The tests convert a few short streams and message lists; ends of streams, repeated and out-of-range indexes are not among them.",
  [FWK + "impl/input_converter.cpp", FWK + "impl/output_channel.cpp",
   FWK + "include/knp/framework/io/out_converters/convert_bitwise.h",
   FWK + "include/knp/framework/io/out_converters/convert_count.h",
   FWK + "include/knp/framework/io/out_converters/convert_set.h",
   FWK + "include/knp/framework/io/in_converters/index_converter.h",
   FWK + "include/knp/framework/io/in_converters/sequence_converter.h"],
  [("window", FWK + "impl/output_channel.cpp"), ("tables of spikes", FWK + "include/knp/framework/io/out_converters/convert_count.h"),
   ("streams", FWK + "include/knp/framework/io/in_converters/sequence_converter.h")],
  "abstract interpretation of the converters and of witness instantiations of their templates: guard, operands and loop of every element produced")

p("F05", "Winner-takes-all and union handlers let through exactly the right spikes",
  "A K-winners handler passes all spikes of its message when there are no more than K, otherwise K different ones drawn at "
  "random. The per-group handler does that within each group of neurons, the group handler passes all spikes of the K groups "
  "with the most spikes, ties broken at random; a neuron belongs to the group between its two neighbouring borders, a border "
  "to the group above it. The union handler passes every neuron that spiked in any message, once. No message gives no spikes. "
  "Adding handlers for a list of senders and receivers adds one for each entry and returns their UIDs.",
  "inputs", "All messages, numbers of winners, border lists and random sequences.",
  "The handlers are random; the tests look at sizes of a few results, which do not show a spike drawn twice or from the wrong group.",
  [FWK + "impl/message_handlers.cpp", FWK + "include/knp/framework/message_handlers.h", FWK + "impl/projection/wta.cpp"],
  [("drawing, groups, union", FWK + "impl/message_handlers.cpp"), ("registration", FWK + "impl/projection/wta.cpp")],
  "abstract interpretation of the handlers with their helpers entered: draws without repetition, group index, order and transfer of every group")

p("F10", "Creators make the synapses and neurons their connection scheme promises",
  "All-to-all, aligned, exclusive, one-to-one, index-based, fixed-probability, fixed-number, container, map and clone "
  "creators and connect_populations make a projection between the given populations with exactly the synapses of their "
  "scheme: every pair once, every pair of different neurons once, one synapse per neuron of the larger population, and so on, "
  "with no index outside the populations and with the parameters given for that pair. Population creators make the number "
  "of neurons asked for, with the parameters of the container, of the given neuron, or the default ones.",
  "inputs", "All population sizes, parameter generators, containers and probabilities.",
  "The tests use a few sizes, mostly equal or multiples; index arithmetic fails for other sizes only.",
  [FWK + "include/knp/framework/projection/creators.h", FWK + "include/knp/framework/projection/synapse_generators.h",
   FWK + "include/knp/framework/projection/connectors.h", FWK + "include/knp/framework/population/creators.h",
   FWK + "include/knp/framework/population/neuron_parameters_generators.h"],
  [("index maps", FWK + "include/knp/framework/projection/synapse_generators.h"),
   ("counts and UIDs", FWK + "include/knp/framework/projection/creators.h")],
  "abstract interpretation of witness instantiations: the term of the synapse for a symbolic index, decided against the known bijections, with the count")

p("F08", "Image datasets keep frames and labels together and feed each frame for its steps",
  "An image dataset holds the complete pairs of image and label that could be read, up to the given number, in file order, "
  "each image with its own label. A split is accepted only when its parts fit in the dataset; frames for inference follow the "
  "frames for training. Generators give, at every step, the pixels or the label of the frame shown at that step: frame number "
  "step / steps_per_frame, shifted past the training frames for inference, wrapping at the end of the part. The incrementing "
  "converter makes a pixel active for as many steps of a frame as its intensity asks for.",
  "inputs histories", "All dataset sizes, splits, steps and label and image streams.",
  "The tests use one small dataset with few steps; the wrap at the end, short streams and splits that do not fit are not sampled.",
  [FWK + "impl/data_processing/classification/dataset.cpp", FWK + "impl/data_processing/classification/image.cpp",
   FWK + "include/knp/framework/data_processing/classification/dataset.h"],
  [("split, parts", FWK + "impl/data_processing/classification/dataset.cpp"),
   ("reading, generators, converter", FWK + "impl/data_processing/classification/image.cpp")],
  "abstract interpretation of the dataset and of the generators it returns: guards, operands and index terms of every element read and made")

p("F07", "Classification results count every inference frame once, in the right column",
  "The votes of a step are the spikes of exactly the messages sent at that step, each for the class of its neuron number modulo "
  "the number of classes. At the last step of every frame the class with the most votes is predicted and the votes start from "
  "zero. Every inference frame is counted in the results of its own class, once: missed when nothing voted, right when its class "
  "was predicted, wrong otherwise, and as a true negative by every other class. The metrics are their textbook ratios and 0 where "
  "a ratio has no value; the table written has each of them in its column.",
  "inputs", "All sequences of spike messages, datasets, and counts.",
  "The test evaluates four frames of one step each; votes left over from an earlier frame or step need longer frames.",
  [FWK + "impl/inference_evaluation/perfomance_metrics.cpp", FWK + "impl/inference_evaluation/classification/processor.cpp"],
  [("votes, predictions, counts, table", FWK + "impl/inference_evaluation/classification/processor.cpp"),
   ("ratios", FWK + "impl/inference_evaluation/perfomance_metrics.cpp")],
  "abstract interpretation with the helper entered: guard, index and operands of every count; the ratios compared as rational functions")

p("F09", "Validation runs every validator on all it is for and reports unconnected parts",
  "A validator added is kept with its name under the new UID returned. A run gives every population validator every population "
  "of the network, every projection validator every projection and every network validator the network, once each, and returns "
  "every report with the UID and name of its validator. The connectivity validator reports, as errors naming them, exactly the "
  "projections with neither a presynaptic nor a postsynaptic population and exactly the populations that are neither the source "
  "nor the target of any projection.",
  "inputs histories", "All networks, sets of validators and reports.",
  "The tests run one validator of each kind on a network with one population and one projection.",
  [FWK + "impl/network_validation/executor.cpp", FWK + "impl/network_validation/validators/connectivity.cpp"],
  [("registration, run", FWK + "impl/network_validation/executor.cpp"),
   ("connectivity", FWK + "impl/network_validation/validators/connectivity.cpp")],
  "abstract interpretation: loops and conditions of every run of a validator and of every issue, marks of connected populations matched with the conditions that read them")

p("F06", "Monitoring loggers write complete rows of what was sent, for the right names",
  "A spikes logger writes, for every message of the given senders, its step, the name of its sender and all its spikes. The "
  "aggregated logger writes at every step that is a multiple of its period one row with the count of every name, in the columns of "
  "its header; every spike of a known sender received since the last row is counted, for the name of its sender, once. The weights "
  "logger writes, at every period, the weight and last spike step of every synapse of the projection with the given UID, grouped "
  "under its target neuron. The status logger writes at its period the number of messages received from all populations of the model.",
  "histories", "All networks, name maps, periods and sequences of messages.",
  "No test covers the loggers; rows and columns agree by accident for some name orders and periods.",
  [FWK + "impl/monitoring/model.cpp", FWK + "include/knp/framework/monitoring/observer.h"],
  [("loggers", FWK + "impl/monitoring/model.cpp"), ("subscription", FWK + "include/knp/framework/monitoring/observer.h")],
  "abstract interpretation of the registration and of the observer function it registers: what is written, under which condition, in which loops")
