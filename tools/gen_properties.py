#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source text of the properties lives here)."""
import json, os
P = []
E = "PTN_Engine/"
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith("Examples/") else E+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Firing rule: exact enabling condition and exact token movement",
 "A transition fires only when every activation place holds at least its arc's weight in tokens, every inhibitor place is empty, and every additional condition returns true. "
 "A firing removes exactly the weight of each activation arc (all tokens for a reset arc, i.e. an activation arc of weight 0 added with addArc), adds exactly the weight of each destination arc, and changes no other place. "
 "This holds for every combination of arc kinds, weights, markings and named or anonymous conditions, in every execution mode.",
 ["inputs", "programs", "histories"],
 "every net built from the public API (any places, weights, markings, arc kinds incl. bidirectional/self-loop/reset/inhibitor, several named or anonymous conditions), every choice of firing order, all four modes",
 "the tests check a dozen hand-made nets with one marking each; the rule quantifies over all nets, markings and firing orders",
 ["Transition.cpp", "Place.cpp", "PTN_EngineImp.cpp"],
 [("isActive/checkActivationPlaces/checkInhibitorPlaces/checkAdditionalConditions", E+"Transition.cpp"), ("enterPlace/exitPlace, reset on weight 0", E+"Place.cpp")],
 [("marking", "tokens per place", E+"Place.h m_numberOfTokens")], ["getNumberOfTokens", "on-enter/on-exit actions"])

prop("C02", "SINGLE_THREAD execute() runs the net to quiescence and no further",
 "In SINGLE_THREAD mode execute() returns if and only if no transition can fire any more: every transition that is or becomes fireable during the run (also one enabled by an earlier firing or by a callback changing a condition) is fired before it returns, and the final marking is reachable by a sequence of legal firings that ends in a marking where nothing is fireable. "
 "Repeated injections and executions behave like one continued run, and execute() never leaves the engine running.",
 ["inputs", "programs", "histories"],
 "every net, marking, firing order and sequence of incrementInputPlace/execute calls in SINGLE_THREAD mode",
 "tests run a few fixed nets under one random order; the claim is about all nets and all orders",
 ["EventLoop.cpp", "PTN_EngineImp.cpp", "TransitionsManager.cpp"],
 [("while(executeInt) loop", E+"EventLoop.cpp start"), ("firedAtLeastOneTransition accumulation", E+"PTN_EngineImp.cpp executeInt")], [], ["getNumberOfTokens after execute()"])

prop("C03", "Asynchronous modes make progress without a timer: no lost wake-up",
 "While the event loop runs (EVENT_LOOP, JOB_QUEUE, DETACHED), every transition that an accepted token injection makes fireable is fired without waiting for the idle period and without any further input, whatever moment the injection hits (loop evaluating, firing, about to sleep, asleep, just started). "
 "Tokens injected before execute() and chains of transitions enabled by earlier firings are processed just as promptly.",
 ["schedules", "histories"],
 "every interleaving of injecting threads with the event-loop thread, any idle period, several injectors and bursts",
 "tests sleep and rely on the 100 ms watchdog to repair a missed notification, so a lost wake-up goes unnoticed; the critical windows are a few instructions wide",
 ["EventLoop.cpp", "PTN_EngineImp.cpp"],
 [("m_newInputReceived set before notify under m_eventNotifierMutex, checked by the wait predicate", E+"EventLoop.cpp, "+E+"PTN_EngineImp.cpp"), ("flag cleared before the enabled set is computed", E+"PTN_EngineImp.cpp executeInt")],
 [("m_newInputReceived", "an input arrived since the last pass began", E+"PTN_EngineImp.h")], ["marking once no thread can move except by time passing"])

prop("C04", "An idle event loop re-evaluates the net once per configured idle period",
 "While running and idle, the event loop re-evaluates all transitions at least once per configured idle period, so a transition whose additional condition becomes true by an outside event (or that was held back only by actions still in execution) fires within one idle period. "
 "getEventLoopSleepDuration always returns the last value set (100 ms initially), and a new value governs every idle wait that begins after it was set.",
 ["schedules", "histories", "configurations"],
 "every moment at which the condition flips or the period is changed relative to the loop, any period, all asynchronous modes",
 "tests use one period and one flip; they cannot place the flip or the change between the loop's check and its wait",
 ["EventLoop.cpp"],
 [("wait_for(m_sleepDuration)", E+"EventLoop.cpp run"), ("setSleepDuration/getSleepDuration", E+"EventLoop.cpp")],
 [("m_sleepDuration", "idle period", E+"EventLoop.h")], ["virtual clock at firing", "getEventLoopSleepDuration"])

prop("C05", "Free choice: every resolution of a conflict can happen",
 "When several transitions are fireable at once, any of them may be the next to fire: for each ordering of the simultaneously fireable transitions there are outcomes of the random source under which they are attempted in that order, independent of names, creation order and how many there are. "
 "In particular, of several transitions competing for the same tokens none is permanently excluded, neither in the first pass nor in later passes of the same run.",
 ["inputs", "configurations"],
 "every set of up to k simultaneously fireable transitions, any names and creation orders, over enumerated outcomes of the random source",
 "one test counts firings of a single 3-way conflict; dependence on position, number or a single pass is invisible to it",
 ["TransitionsManager.cpp", "PTN_EngineImp.cpp"],
 [("ranges::shuffle seeded from random_device", E+"TransitionsManager.cpp collectEnabledTransitionsRandomly")], [], ["set of firing orders over all enumerated random outcomes"])

prop("C06", "Each firing and injection triggers each action exactly once, exits first",
 "Every firing triggers the on-exit action of each activation place and the on-enter action of each destination place exactly once per arc, whatever the weight, and every accepted injection triggers the input place's on-enter action exactly once; a failed check, rejected injection or other call triggers none. "
 "Within one firing all on-exit actions are triggered before any on-enter action. "
 "In every mode all triggered actions are eventually executed exactly once, unless the engine is destroyed first.",
 ["schedules", "inputs", "histories"],
 "every net, weight, mode, and interleaving of injections, firings and action execution",
 "tests count actions in single nets after sleeping; a dropped or doubled action under one interleaving or weight is not sampled",
 ["Place.cpp", "Transition.cpp", "Executor/*", "JobQueue/JobQueue.cpp"],
 [("executeAction once per enterPlace/exitPlace", E+"Place.cpp"), ("queue push/pop under lock", E+"JobQueue/JobQueue.cpp")], [], ["action invocations"])

prop("C07", "JOB_QUEUE executes actions one at a time in trigger order",
 "In JOB_QUEUE mode at most one action of an engine executes at any time and actions execute in exactly the order in which they were triggered (firing order, and injection order for injections that do not overlap), with none lost or repeated, also when the queue runs empty and restarts or injections race with the worker going idle.",
 ["schedules"],
 "every interleaving of event loop, injecting threads and queue worker, any number of empty/non-empty transitions of the queue",
 "the window between the worker finding the queue empty and the next trigger is a few instructions; tests only see one schedule",
 ["JobQueue/JobQueue.cpp", "Executor/JobQueueExecutor.cpp"],
 [("m_isJobQueueRunning and m_jobQueue guarded by m_jobQueueMutex", E+"JobQueue/JobQueue.cpp")],
 [("m_jobQueue", "pending actions", E+"JobQueue/JobQueue.h")], ["begin/end of each action"])

prop("C08", "Actions and firings run on the thread the mode promises",
 "SINGLE_THREAD runs firings, conditions and actions synchronously in the thread calling execute() (and an injection's on-enter action in the injecting thread) and creates no thread; EVENT_LOOP runs firings, conditions and their actions synchronously on the one event-loop thread. "
 "JOB_QUEUE and DETACHED run firings on the event-loop thread and no action ever on it or on a caller's thread: JOB_QUEUE never runs two actions concurrently, DETACHED gives each action a thread of its own, so neither the engine nor another DETACHED action ever waits for an action. "
 "The mode in force is the one last set by the constructor, a successful setActionsThreadOption or an import.",
 ["schedules", "configurations"],
 "every mode and mode change, every interleaving, actions that block indefinitely",
 "tests compare one or two results per mode; waiting on a blocked action or running on a wrong thread in one path is not observable there",
 ["Executor/ActionsExecutorFactory.cpp", "Executor/*.cpp", "EventLoop.cpp", "PTN_EngineImp.cpp"],
 [("executor chosen per mode", E+"Executor/ActionsExecutorFactory.cpp"), ("setActionsExecutor on all places", E+"PlacesManager.cpp")], [], ["thread identity in callbacks", "progress while actions are blocked"])

prop("C09", "requireNoActionsInExecution holds a transition back exactly while needed",
 "A transition created with requireNoActionsInExecution never fires while an on-enter action triggered in one of its activation places is still pending or running, including one triggered concurrently with the decision to fire. "
 "It is held back by nothing else: once those actions have finished it fires (at the latest in the next evaluation), other transitions are unaffected, and afterwards on-enter actions of those places are triggered as usual.",
 ["schedules"],
 "every interleaving of action start/finish, injections and evaluation, all asynchronous modes, several activation places, self-loops",
 "the existing test sleeps around one action; the check-then-fire window and the block/unblock protocol are schedule dependent",
 ["Transition.cpp", "Place.cpp", "Executor/*.cpp"],
 [("m_onEnterActionsInExecution incremented at trigger, decremented after the action", E+"Executor"), ("blockStartingOnEnterActions around check+firing", E+"Transition.cpp execute")],
 [("m_onEnterActionsInExecution", "actions triggered and unfinished", E+"Place.h"), ("m_blockStartingOnEnterActions", "decision in progress", E+"Place.h")], ["action begin/end vs firing"])

prop("C10", "Concurrent injections are atomic: tokens are neither lost nor invented",
 "Every successful incrementInputPlace adds exactly one token, also when several threads inject into the same or different places while the loop fires transitions; the marking finally reached is one that some sequential order of the injections and legal firings reaches. "
 "Every token count observed by getNumberOfTokens at any time is the place's count in some state between firings' individual token movements consistent with that order, and counts never go below zero or wrap.",
 ["schedules"],
 "every interleaving of up to 3 API threads with the event loop, all modes",
 "a lost update needs two threads inside the same increment; tests inject from one thread",
 ["Place.cpp", "PlacesManager.cpp", "PTN_EngineImpProxy.cpp", "Transition.cpp"],
 [("Place::m_mutex, PlacesManager::m_itemsMutex, proxy mutex", E+"Place.cpp, "+E+"PlacesManager.cpp, "+E+"PTN_EngineImpProxy.cpp")], [], ["getNumberOfTokens", "firing counts"])

prop("C11", "Every API call terminates: no deadlock, livelock or stuck thread",
 "Every public call made from an application thread, or from an action running asynchronously (JOB_QUEUE, DETACHED), returns; this includes concurrent execute(), stop(), injections, queries, editing calls and configuration calls in any combination, and destruction of the engine when no other call is in progress. "
 "No combination leaves an engine thread blocked forever or spinning.",
 ["schedules", "histories"],
 "every interleaving of 2-3 threads making public calls, all modes, transitions with requireNoActionsInExecution included; callbacks that themselves terminate and, when run synchronously, do not call the engine",
 "deadlocks need two threads at particular points; the tests never call the API from two threads at once",
 ["PTN_EngineImpProxy.cpp", "EventLoop.cpp", "Place.cpp", "Transition.cpp", "JobQueue/JobQueue.cpp"],
 [("lock order proxy -> managers -> transition -> place", E+"*"), ("stop: request_stop + barrier with the loop", E+"EventLoop.cpp")], [], ["return of every call"])

prop("C12", "No API call waits for the idle period",
 "stop(), destruction of the engine, setEventLoopSleepDuration, injections and queries complete without waiting for the idle period to elapse, even when the event loop is idle in a long wait; they only ever wait for callbacks or firings that are in progress.",
 ["schedules", "configurations"],
 "every moment of the call relative to the loop's wait, any idle period, all asynchronous modes",
 "tests use a 100 ms period, so waiting it out passes unnoticed",
 ["EventLoop.cpp", "PTN_EngineImpProxy.cpp"],
 [("stop wakes the loop", E+"EventLoop.cpp stop"), ("idle period copied before waiting", E+"EventLoop.cpp run")], [], ["virtual time that passes during the call"])

prop("C13", "No data race and no access to destroyed state under any API use",
 "Concurrent use of one engine through its public API never performs a data race and never touches freed or destroyed memory, including while the net is cleared, the mode is changed, the loop is stopped and restarted, or the engine is destroyed with asynchronous actions pending or running. "
 "A callback that an engine runs is always intact for as long as it runs.",
 ["schedules", "histories"],
 "every interleaving of 2-3 API threads plus engine threads within the bounds, all modes; every order of pending action execution vs clearNet/destruction",
 "tests run unsynchronised accesses without a race detector and in one schedule; lifetime bugs need destruction to overtake a pending action",
 ["Place.cpp", "Executor/*.cpp", "EventLoop.cpp", "JobQueue/JobQueue.cpp", "PTN_EngineImp.cpp"],
 [("mutexes around shared state", E+"Place.cpp, "+E+"PlacesManager.cpp"), ("actions and counters kept alive by the job", E+"Executor, "+E+"Place.cpp"), ("loop thread joined before restart", E+"EventLoop.cpp")], [], ["every memory access"])

prop("C14", "Lifecycle: execute, stop and isEventLoopRunning tell the truth",
 "After execute() returns in an asynchronous mode isEventLoopRunning is true until a stop takes effect, and execute() on a running engine throws and changes nothing; after stop() returns (with no concurrent execute) isEventLoopRunning is false and no transition fires, no condition is evaluated and the marking changes only by injections until the next execute(). "
 "stop() on a stopped engine does nothing, any number of execute/stop cycles (also concurrent ones, and across mode changes) work alike and lose no tokens, and destroying an engine stops it.",
 ["schedules", "histories"],
 "every sequence and interleaving of execute/stop/isEventLoopRunning/injections by up to 3 threads, all modes",
 "one test does one start/stop; races between stop, restart and the exiting loop are schedule dependent",
 ["EventLoop.cpp", "PTN_EngineImpProxy.cpp"],
 [("m_eventLoopThreadRunning and barrier handshake", E+"EventLoop.cpp")], [("m_eventLoopThreadRunning", "loop running", E+"EventLoop.h")], ["isEventLoopRunning", "firings after stop"])

prop("C15", "Structural changes are refused while the event loop runs",
 "While the event loop is running, addArc, removeArc, clearNet and setActionsThreadOption throw and leave net, marking and mode unchanged, and export is refused likewise; once the loop is stopped they take effect. "
 "An import into a running engine stops it first.",
 ["schedules", "histories"],
 "every point of the loop's execution at which the call can hit, all asynchronous modes, races with execute/stop",
 "tests call addArc/removeArc/clearNet while running at most once; partial effects and races with start/stop are not sampled",
 ["PTN_EngineImp.cpp", "ImportExport/IFileExporter.cpp", "ImportExport/IFileImporter.cpp"],
 [("isEventLoopRunning guards", E+"PTN_EngineImp.cpp addArc/removeArc/clearNet/setActionsThreadOption")], [], ["exceptions", "properties of the net afterwards"])

prop("C16", "Net editing follows its reference semantics with no partial effects",
 "createPlace, createTransition, addArc, removeArc, clearNet, registerAction and registerCondition accept exactly the well-formed requests (known, non-empty and unique names, existing places, transitions and functions, no repeated place among one transition's arcs of one kind, non-zero weights except for reset arcs) and have exactly the requested effect. "
 "A rejected request throws PTN_Exception (or a subclass) and leaves the engine exactly as it was.",
 ["histories", "inputs"],
 "every sequence of editing calls up to a depth over a small alphabet of names, weights and arc kinds, compared with a reference model after every step",
 "tests check single calls on fresh nets; half-done effects, order dependence and re-creation after clearing need sequences",
 ["PTN_EngineImp.cpp", "PlacesManager.cpp", "TransitionsManager.cpp", "ManagerBase.h", "ManagedContainer.h", "Transition.cpp"],
 [("validation before mutation", E+"PTN_EngineImp.cpp, "+E+"Transition.cpp"), ("name maps", E+"ManagerBase.h")], [], ["getPlacesProperties", "getTransitionsProperties", "exceptions"])

prop("C17", "Introspection and state output report the engine's actual state",
 "getPlacesProperties, getTransitionsProperties, getNumberOfTokens and printState report exactly the places, transitions, arcs, weights, functions, flags and current token counts of the net, and the functions returned are the ones the net calls. "
 "execute with logging writes such a state report at the start of every evaluation pass, including the first and the last, and nothing without logging; logging and queries never change what the net does.",
 ["histories", "inputs", "schedules"],
 "every net and reachable marking of the bounded families, and queries at every point of a concurrent run",
 "tests read the properties of one freshly built net; stale or torn values after firings or edits are not sampled",
 ["PlacesManager.cpp", "Transition.cpp", "Place.cpp", "PTN_EngineImp.cpp"],
 [("placeProperties/getTransitionProperties/printState", E+"Place.cpp, "+E+"Transition.cpp, "+E+"PlacesManager.cpp")], [], ["return values", "log stream"])

prop("C18", "XML export followed by import reproduces the net",
 "Exporting any engine whose callbacks are registered by name and importing the file into an engine with the same registered functions yields an equal net: same mode, places, current token counts, input flags, action names, transitions, condition names, requireNoActionsInExecution, arcs and weights, hence the same behaviour. "
 "This holds for any names without NUL characters, any token count or weight, and repeated use of one exporter or importer object.",
 ["inputs", "histories"],
 "every net of the bounded family (all arc kinds incl. reset, boundary counts and weights, names with XML-special characters), all modes, several exports/imports through one object",
 "tests round-trip two fixed nets with small numbers and a fresh exporter",
 ["ImportExport/XML/src/XML/XML_FileExporter.cpp", "ImportExport/XML/src/XML/XML_FileImporter.cpp", "ImportExport/IFileExporter.cpp", "ImportExport/IFileImporter.cpp"],
 [("attribute mapping on both sides", E+"ImportExport/XML/src/XML")], [], ["properties of both engines"])

prop("C19", "Import and export never silently produce something wrong",
 "Importing a document that is unreadable, not well formed, or contains an unknown mode, arc type or boolean, a malformed or out-of-range number, an unknown or repeated name or a missing required value throws an exception instead of importing a different net; optional values that are absent or empty take their defaults. "
 "Exporting to a destination that cannot be written throws.",
 ["inputs", "fault_sequences"],
 "every single-point corruption (and truncation at every byte) of a reference document over a value alphabet, and every unwritable destination kind",
 "tests import one missing file; the space of malformed documents is not sampled",
 ["ImportExport/XML/src/XML/XML_FileImporter.cpp", "ImportExport/XML/src/XML/XML_FileExporter.cpp", "ImportExport/ActionsThreadOptionConversions.cpp"],
 [("load result check, from_chars, enumerated strings", E+"ImportExport/XML/src/XML/XML_FileImporter.cpp"), ("save result check", E+"ImportExport/XML/src/XML/XML_FileExporter.cpp")], [], ["exceptions", "imported net"])

prop("C20", "Token arithmetic is exact up to the maximum and refuses to overflow",
 "Token counts and weights are exact over the whole range of size_t: enabling comparisons, additions and subtractions never truncate, wrap or go negative. "
 "An injection or firing that would push a place over the maximum throws OverflowException and leaves that place's count unchanged.",
 ["inputs"],
 "every pair of token count and weight from a boundary set (0, 1, 2^31, 2^32 and 2^63 and the maximum, each +-1), for activation, destination, reset and injection",
 "tests use small numbers and one overflow value",
 ["Place.cpp", "Transition.cpp"],
 [("increaseNumberOfTokens/decreaseNumberOfTokens", E+"Place.cpp"), ("checkActivationPlaces", E+"Transition.cpp")], [], ["getNumberOfTokens", "exceptions"])

prop("C21", "A throwing callback in SINGLE_THREAD mode leaves the engine usable",
 "When a condition or action throws in SINGLE_THREAD mode, the exception reaches the caller of execute() or incrementInputPlace(); a condition that throws leaves the marking unchanged by that transition, and no exception ever leaves a place, a transition or the engine blocked, running or counted as having an action in execution. "
 "Subsequent calls behave exactly as they would for a fresh engine with the same net and marking.",
 ["histories", "fault_sequences"],
 "every callback invocation of a run as the one that throws, transitions with and without requireNoActionsInExecution, followed by every further operation",
 "no test lets a callback throw; the specification lists exception safety as untested",
 ["Transition.cpp", "Place.cpp", "Executor/SingleThreadExecutor.cpp"],
 [("unblocking and counter restoration on unwinding", E+"Transition.cpp execute, "+E+"Executor/SingleThreadExecutor.cpp")], [], ["exceptions", "later behaviour"])

prop("C22", "Failure to create a thread is reported or recovered, never corrupting",
 "When the system refuses to create a thread, execute() throws and leaves the engine stopped, able to execute later and with its net and tokens intact; in JOB_QUEUE mode a triggered action whose worker could not be started stays queued and runs, in order, with the next triggered action. "
 "In no case does the engine report running without a loop, count an action as in execution that never runs, or block a later call.",
 ["fault_sequences", "schedules"],
 "every thread creation of a history as the failing one (and every pair), followed by further use",
 "no test injects resource exhaustion",
 ["EventLoop.cpp", "JobQueue/JobQueue.cpp", "Executor/DetachedExecutor.cpp"],
 [("launch catches system_error", E+"JobQueue/JobQueue.cpp"), ("running flag set only with a thread", E+"EventLoop.cpp start")], [], ["isEventLoopRunning", "later behaviour"])

prop("C23", "Job queue: no job is lost, repeated or run while inactive",
 "For every sequence and interleaving of adding jobs, activating and deactivating a job queue, jobs run one at a time in the order added, each exactly once, no job starts between the return of a deactivation and the next activation, and jobs added or left over while inactive run after the next activation. "
 "Every call returns, and destroying the queue waits for the job being executed and runs no further job afterwards.",
 ["histories", "schedules"],
 "every sequence up to a depth of add/activate/deactivate by one thread, and every interleaving of two threads with the worker",
 "tests perform three fixed sequences with sleeps",
 ["JobQueue/JobQueue.cpp"],
 [("m_isJobQueueActive/m_isJobQueueRunning, join on deactivation", E+"JobQueue/JobQueue.cpp")], [], ["job executions"])

prop("C24", "Bundled examples: the nets do what the examples are described to do",
 "The factorial net prints n! for each of its numbers, zero included. "
 "The phone menu (the coded net and the one in PhoneMenu.xml, also after exporting it and importing it again) follows its menu for every sequence of keys: A switches the option or goes to the next message, B selects, C leaves, a key without meaning is kept until it has one, exactly one menu is active, and what is shown is that menu with the selected option or message. "
 "The elevator is at any time either stopped or moving, has its doors either open or closed, never moves with open doors, stays between its bottom and top floors, and when it waits without requests serves the ones it is given, stopping with open doors at each floor. "
 "Destroying a controller is safe at any moment.",
 ["inputs", "histories"],
 "every sequence of keys or elevator commands up to a depth, all modes the examples use, every random choice of a family and (phone menu) every schedule within a bound for keys pressed without waiting",
 "no test runs the examples; the sequences of inputs and the timing of the worker threads are unbounded",
 ["Examples/Factorial/main.cpp", "Examples/PhoneMenu/Controller/MenuStateMachine.cpp", "Examples/PhoneMenu/Controller/XMLMenuStateMachine.cpp", "Examples/PhoneMenu/Controller/Controller.cpp", "Examples/PhoneMenu/assets/PhoneMenu.xml", "Examples/Elevator/Controller/ElevatorController.cpp", "Examples/Elevator/Controller/ElevatorPetriNet.cpp", "PTN_EngineImp.cpp"],
 [("menu transitions T1-T12", "Examples/PhoneMenu/Controller/MenuStateMachine.cpp"), ("cabin transitions T1-T7", "Examples/Elevator/Controller/ElevatorPetriNet.cpp")], [], ["cout", "getNumberOfTokens"])

prop("C25", "Engines are independent of one another",
 "What an engine does depends only on its own net, its own settings and the calls made on it: engines that exist one after another, at the same time, on one thread or on several, with the same names and the same callbacks, each behave as they would alone. "
 "In particular a callback of one engine may run, feed, start, stop, change, create and destroy other engines (as long as those do not call back into a call in progress), which takes effect as from anywhere else and affects the engine whose callback it is in no way, also when an exception passes through; a slow callback of one engine holds no other engine up; idle periods, modes, registered functions, logs, files and actions in execution of one engine are its own.",
 ["inputs", "schedules", "histories"],
 "every combination of small nets, places of the nested call and kinds of call; every sequence of calls distributed over two engines up to a depth; every schedule of engines at work at the same time within a preemption bound",
 "the tests use one engine at a time; state shared by accident shows only when two engines interleave",
 ["PTN_EngineImp.cpp", "TransitionsManager.cpp", "Transition.cpp", "Place.cpp", "EventLoop.cpp", "Executor/ActionsExecutorFactory.cpp", "JobQueue/JobQueue.cpp"],
 [("one implementation object with managers, executors and event loop per engine", E+"PTN_EngineImp.h")], [], ["getNumberOfTokens", "getPlacesProperties", "action executions", "logs"])

prop("C26", "The net can be extended while the event loop runs",
 "createPlace, createTransition, registerAction and registerCondition are accepted while the event loop runs, by the same rules as otherwise, and take effect at once and as a whole: a new place has its tokens, can be injected into if it is an input place and its actions run as the mode says; a new transition never fires without all its arcs and conditions, and one that is enabled fires within one idle period without any further event. "
 "What was there before goes on undisturbed, also when the request is refused; requests of two threads with one name are accepted once; a net may extend itself by its own asynchronous actions; what was added stays part of the net after stop().",
 ["schedules", "histories"],
 "every point of the loop's execution at which the call can hit, requests of two threads, from actions, in all asynchronous modes; up to hundreds of additions",
 "the tests build each net completely before they execute it",
 ["PTN_EngineImp.cpp", "PlacesManager.cpp", "TransitionsManager.cpp", "ManagedContainer.h", "EventLoop.cpp"],
 [("managers guard their items with a lock and the loop collects the transitions anew for each evaluation", E+"TransitionsManager.cpp")], [], ["getNumberOfTokens", "getPlacesProperties", "action executions"])

prop("C27", "Nothing is left behind",
 "What an engine has been given and has allocated is released when it is no longer needed. After its destruction - at any moment, with the loop running or actions pending or in execution - no copy of an object captured by its callbacks, no thread, no open file and no memory is left, at the latest when the actions already triggered have been executed. "
 "clearNet() releases the functions of the net cleared, an executed action leaves only the net's own copy of its function, refused requests and callbacks that throw leave nothing; and however often a call is repeated, the memory in use does not grow with the number of calls made.",
 ["histories", "schedules", "faults"],
 "sequences of calls of every pair (thorough: triple) of operations, destruction at every point of the loop's and actions' execution, up to hundreds of repetitions, refused threads; all modes",
 "the tests never look at what is in use after an engine's life, and their processes end soon after",
 ["PTN_EngineImp.cpp", "PlacesManager.cpp", "TransitionsManager.cpp", "Place.cpp", "JobQueue/JobQueue.cpp", "Executor/DetachedExecutor.cpp"],
 [("shared_ptr to places and transitions owned by the managers, weak_ptr in the arcs", E+"TransitionsManager.cpp")], [], ["copies of captured objects", "live allocations", "threads", "open files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
