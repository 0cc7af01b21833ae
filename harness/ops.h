// Every public operation of an engine, applied to one net (used to explore combinations of calls).
#pragma once
#include "common.h"
#include "xml.h"
#include <atomic>

namespace ops
{
enum Op
{
	EXECUTE,
	STOP,
	INJECT_A,
	INJECT_B,
	TOKENS,
	ADD_ARC,
	REMOVE_ARC,
	CLEAR,
	CREATE_PLACE,
	CREATE_TRANSITION,
	REGISTER_ACTION,
	REGISTER_CONDITION,
	SET_MODE,
	GET_MODE,
	SET_SLEEP,
	GET_SLEEP,
	RUNNING,
	PRINT,
	PLACES,
	TRANSITIONS,
	EXPORT,
	IMPORT,
	OPS
};
inline const char *NAME[] = { "execute", "stop", "inject a", "inject b", "getNumberOfTokens", "addArc", "removeArc", "clearNet", "createPlace",
							  "createTransition", "registerAction", "registerCondition", "setActionsThreadOption", "getActionsThreadOption",
							  "setEventLoopSleepDuration", "getEventLoopSleepDuration", "isEventLoopRunning", "printState", "getPlacesProperties",
							  "getTransitionsProperties", "export", "import" };

// Where the callbacks of the net count.
struct Counts
{
	int begun = 0, ended = 0, conds = 0; // only touched outside the program under test: no scheduling points
};

inline void build(Eng &e, Counts &c)
{
	auto act = [&c]
	{
		mc::Outside o;
		++c.begun;
		++c.ended;
	};
	auto cond = [&c]
	{
		mc::Outside o;
		++c.conds;
		return true;
	};
	e.registerAction("act", act);
	e.registerCondition("cond", cond);
	PlaceProperties p;
	p.name = "a";
	p.initialNumberOfTokens = 1;
	p.input = true;
	p.onEnterActionFunctionName = "act";
	p.onExitActionFunctionName = "act";
	e.createPlace(p);
	p.name = "b";
	p.initialNumberOfTokens = 0;
	p.onExitActionFunctionName = "";
	e.createPlace(p);
	place(e, { "c" });
	TransitionProperties t;
	t.name = "t";
	t.activationArcs = { arc("a") };
	t.destinationArcs = { arc("b") };
	t.additionalConditionsNames = { "cond" };
	t.requireNoActionsInExecution = true;
	e.createTransition(t);
	transition(e, { "u", { { "b", 2 } }, { { "c", 1 } }, { { "c", 1 } } });
}

inline string document(Mode m)
{
	return string("<PTN-Engine actionsThreadOption=\"") + modeName(m) +
		   "\"><Places><Place name=\"ia\" tokens=\"1\" input=\"true\" onEnterAction=\"act\" onExitAction=\"\"/>"
		   "<Place name=\"ib\" tokens=\"0\" input=\"true\" onEnterAction=\"\" onExitAction=\"\"/></Places><Transitions>"
		   "<Transition><Name value=\"it\"/><ActivationConditions><ActivationCondition name=\"cond\"/></ActivationConditions>"
		   "<RequireNoActionsInExecution value=\"true\"/></Transition></Transitions>"
		   "<Arcs><Arc><Place value=\"ia\"/><Transition value=\"it\"/><Weight value=\"1\"/><Type value=\"Activation\"/></Arc></Arcs></PTN-Engine>";
}

inline Mode other(Mode m) { return m == Mode::EVENT_LOOP ? Mode::JOB_QUEUE : m == Mode::JOB_QUEUE ? Mode::DETACHED : m == Mode::DETACHED ? Mode::SINGLE_THREAD : Mode::EVENT_LOOP; }

inline void apply(Eng &e, Op op, Mode m, int id = 0)
{
	switch (op)
	{
	case EXECUTE: e.execute(); break;
	case STOP: e.stop(); break;
	case INJECT_A: e.incrementInputPlace("a"); break;
	case INJECT_B: e.incrementInputPlace("b"); break;
	case TOKENS: e.getNumberOfTokens("b"); break;
	case ADD_ARC: e.addArc(arc("c", 1, ArcProperties::Type::DESTINATION, "t")); break;
	case REMOVE_ARC: e.removeArc(arc("c", 1, ArcProperties::Type::INHIBITOR, "u")); break;
	case CLEAR: e.clearNet(); break;
	case CREATE_PLACE: place(e, { "n" + std::to_string(id), 1, true, [] {} }); break;
	case CREATE_TRANSITION: transition(e, { "nt" + std::to_string(id), { { "a", 1 } }, { { "c", 1 } }, {}, { [] { return true; } } }); break;
	case REGISTER_ACTION: e.registerAction("act" + std::to_string(id + 1), [] {}); break;
	case REGISTER_CONDITION: e.registerCondition("cond" + std::to_string(id + 1), [] { return true; }); break;
	case SET_MODE: e.setActionsThreadOption(other(m)); break;
	case GET_MODE: e.getActionsThreadOption(); break;
	case SET_SLEEP: e.setEventLoopSleepDuration(ms(70)); break;
	case GET_SLEEP: e.getEventLoopSleepDuration(); break;
	case RUNNING: e.isEventLoopRunning(); break;
	case PRINT:
	{
		std::ostringstream o;
		e.printState(o);
		break;
	}
	case PLACES: e.getPlacesProperties(); break;
	case TRANSITIONS: e.getTransitionsProperties(); break;
	case EXPORT:
	{
		auto x = FileExporterFactory::createXMLFileExporter();
		x->_export(e, scratch("export" + std::to_string(id)));
		break;
	}
	case IMPORT:
	{
		auto x = FileImporterFactory::createXMLFileImporter();
		x->_import(scratch("import"), e);
		break;
	}
	default: break;
	}
}
// Writes the document IMPORT reads (before any thread is created).
inline void prepare(Mode m) { writeFile(scratch("import"), document(other(m))); }

// Applies the operation; what it may throw is a PTN_Exception.
inline int tryApply(Eng &e, Op op, Mode m, int id = 0)
{
	int r = throws([&] { apply(e, op, m, id); });
	MC_CHECK(r <= 1, "%s: threw something else than a PTN_Exception", NAME[op]);
	return r;
}
} // namespace ops
