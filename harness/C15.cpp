// Structural changes are refused while the event loop runs (C15).
#include "refnet.h"
#include "xml.h"

static const int EDITS = 18;
static const char *EDITNAME[] = { "addArc activation", "addArc destination", "addArc inhibitor", "addArc bidirectional", "addArc reset",
								  "removeArc activation", "removeArc destination", "removeArc inhibitor", "removeArc bidirectional", "clearNet",
								  "setActionsThreadOption SINGLE_THREAD", "setActionsThreadOption EVENT_LOOP", "setActionsThreadOption JOB_QUEUE",
								  "setActionsThreadOption DETACHED", "export", "addArc unknown place", "removeArc unknown transition", "addArc existing" };
static void edit(Eng &e, int k, int id = 0)
{
	switch (k)
	{
	case 0: e.addArc(arc("c", 2, AT::ACTIVATION, "t")); break;
	case 1: e.addArc(arc("c", 2, AT::DESTINATION, "t")); break;
	case 2: e.addArc(arc("c", 1, AT::INHIBITOR, "u")); break;
	case 3: e.addArc(arc("c", 2, AT::BIDIRECTIONAL, "u")); break;
	case 4: e.addArc(arc("c", 0, AT::ACTIVATION, "t")); break;
	case 5: e.removeArc(arc("n", 1, AT::ACTIVATION, "w")); break;
	case 6: e.removeArc(arc("b", 1, AT::DESTINATION, "t")); break;
	case 7: e.removeArc(arc("c", 1, AT::INHIBITOR, "t")); break;
	case 8: e.removeArc(arc("c", 1, AT::BIDIRECTIONAL, "w")); break;
	case 9: e.clearNet(); break;
	case 10: e.setActionsThreadOption(Mode::SINGLE_THREAD); break;
	case 11: e.setActionsThreadOption(Mode::EVENT_LOOP); break;
	case 12: e.setActionsThreadOption(Mode::JOB_QUEUE); break;
	case 13: e.setActionsThreadOption(Mode::DETACHED); break;
	case 14: FileExporterFactory::createXMLFileExporter()->_export(e, scratch("out" + std::to_string(id))); break;
	case 15: e.addArc(arc("nowhere", 1, AT::ACTIVATION, "t")); break;
	case 16: e.removeArc(arc("a", 1, AT::ACTIVATION, "nothing")); break;
	case 17: e.addArc(arc("a", 1, AT::ACTIVATION, "t")); break;
	}
}
// Whether the stopped engine accepts it.
static bool valid(int k) { return k < 15; }

static void build(Eng &e)
{
	place(e, { "a", 0, true });
	place(e, { "b", 0 });
	place(e, { "c", 0 });
	place(e, { "n", 0 });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, { { "c", 1 } } });
	transition(e, { "u", { { "n", 1 } }, { { "b", 1 } } });
	transition(e, { "w", { { "n", 2 }, { "c", 3 } }, { { "c", 1 } } });
}
// The structure, without the marking.
static string structure(const Eng &e)
{
	std::map<string, string> v;
	for (auto &p : e.getPlacesProperties())
		v["P" + p.name] = p.input ? "in" : "-";
	for (auto &t : e.getTransitionsProperties())
		v["T" + t.name] = arcsText(t.activationArcs) + "/" + arcsText(t.destinationArcs) + "/" + arcsText(t.inhibitorArcs);
	string s = string(modeName(e.getActionsThreadOption())) + "\n";
	for (auto &[n, x] : v)
		s += n + " " + x + "\n";
	return s;
}
// What the edit makes of the structure of a stopped engine.
static string edited(Mode m, int k)
{
	Eng e(m);
	build(e);
	throws([&] { edit(e, k, 9); });
	return structure(e);
}

// At any moment of a running loop; then after stop().
static void refused(Mode m, int k, int when)
{
	writeFile(scratch("out1"), "untouched");
	Eng e(m);
	build(e);
	string before = structure(e);
	e.execute();
	e.incrementInputPlace("a");
	if (when == 1)
		mc::quiesce();
	if (when == 2)
	{
		mc::settle(250);
	}
	int r = throws([&] { edit(e, k, 1); });
	MC_CHECK(r != 0, "%s: %s accepted while running", modeName(m), EDITNAME[k]);
	MC_CHECK(e.isEventLoopRunning(), "%s: %s stopped the loop", modeName(m), EDITNAME[k]);
	string now = structure(e);
	MC_CHECK(now == before, "%s: refused %s changed the net from\n%sto\n%s", modeName(m), EDITNAME[k], before.c_str(), now.c_str());
	MC_CHECK(readFile(scratch("out1")) == "untouched", "%s: refused export has written the file", modeName(m));
	mc::quiesce();
	MC_CHECK(engineMarking(e) == "a=0 b=1 c=0 n=0 ", "%s: %s changed the marking: %s", modeName(m), EDITNAME[k], engineMarking(e).c_str());
	e.incrementInputPlace("a");
	mc::quiesce();
	MC_CHECK(engineMarking(e) == "a=0 b=2 c=0 n=0 ", "%s: not executed as before: %s", modeName(m), engineMarking(e).c_str());
	e.stop();
	r = throws([&] { edit(e, k, 1); });
	MC_CHECK(r == (valid(k) ? 0 : 1), "%s: %s %s once stopped", modeName(m), EDITNAME[k], r ? "refused" : "accepted");
	string want = edited(m, k), got = structure(e);
	MC_CHECK(got == want, "%s: %s: net is\n%sinstead of\n%s", modeName(m), EDITNAME[k], got.c_str(), want.c_str());
	if (k == 14)
		MC_CHECK(readFile(scratch("out1")).find("PTN-Engine") != string::npos, "nothing exported");
}
MC_SCENARIO(refused_while_running, { .p = 2, .pThorough = 3, .shards = 54, .delayBounded = true })
{
	int c = mc::config(EDITS * 9);
	refused(ASYNC[c % 3], c / 3 % EDITS, c / 3 / EDITS);
}
MC_SCENARIO(refused_el, { .p = 2, .pThorough = 3, .shards = 36 })
{
	int c = mc::config(EDITS * 2);
	refused(Mode::EVENT_LOOP, c % EDITS, c / EDITS);
}

// Against a concurrent execute() or stop(): all or nothing, and refused if the loop runs throughout.
static void against(Mode m, int k, bool start)
{
	Eng e(m);
	build(e);
	string before = structure(e);
	string after = edited(m, k);
	if (!start)
		e.execute();
	int r = 0;
	{
		std::thread th([&] { r = throws([&] { edit(e, k, 1); }); });
		if (start)
			e.execute();
		else
			e.stop();
		th.join();
	}
	Mode now = e.getActionsThreadOption();
	string s = structure(e);
	if (r == 0)
		MC_CHECK(s == after, "%s: %s accepted but net is\n%sinstead of\n%s", modeName(m), EDITNAME[k], s.c_str(), after.c_str());
	else
		MC_CHECK(s == before, "%s: %s refused but net is\n%sinstead of\n%s", modeName(m), EDITNAME[k], s.c_str(), before.c_str());
	if (start)
	{
		MC_CHECK(e.isEventLoopRunning() == (now != Mode::SINGLE_THREAD), "%s: %s: isEventLoopRunning() is %d", modeName(m), EDITNAME[k], e.isEventLoopRunning());
		MC_CHECK(r || now == Mode::SINGLE_THREAD || throws([&] { edit(e, k == 14 ? 14 : 9, 1); }) != 0, "%s: %s accepted while running", modeName(m), EDITNAME[k]);
	}
	else
		MC_CHECK(!e.isEventLoopRunning(), "%s: running after stop()", modeName(m));
	mc::outcome("%s %s", EDITNAME[k], r ? "refused" : "accepted");
	e.stop();
}
MC_SCENARIO(against_execute_and_stop, { .p = 2, .pThorough = 3, .shards = 45 })
{
	int c = mc::config(15 * 3 * 2);
	against(ASYNC[c % 3], c / 3 % 15, c / 45);
}

// Two loops' worth of calls: refused throughout several passes, while the loop fires and re-evaluates.
MC_SCENARIO(throughout, { .p = 1, .pThorough = 2, .shards = 15, .delayBounded = true })
{
	int k = mc::config(15);
	Mode m = ASYNC[mc::choose(3)];
	Eng e(m);
	build(e);
	string before = structure(e);
	e.execute();
	for (int i = 0; i < 3; ++i)
	{
		if (i)
			e.incrementInputPlace("a");
		MC_CHECK(throws([&] { edit(e, k, 1); }) != 0, "%s: %s accepted while running", modeName(m), EDITNAME[k]);
		if (i == 1)
			mc::settle(100);
	}
	MC_CHECK(structure(e) == before, "%s: %s changed the net", modeName(m), EDITNAME[k]);
	mc::quiesce();
	MC_CHECK(engineMarking(e) == "a=0 b=2 c=0 n=0 ", "%s: marking %s", modeName(m), engineMarking(e).c_str());
}

// From an asynchronous action while the loop runs.
MC_SCENARIO(refused_in_action, { .p = 1, .pThorough = 2, .shards = 30, .delayBounded = true })
{
	int c = mc::config(30);
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED;
	int k = c / 2;
	int r = -1;
	Eng e(m);
	build(e);
	place(e, { "x", 0, true, [&] { int q = throws([&] { edit(e, k, 1); }); mc::Outside o; r = q; } });
	string before = structure(e);
	e.execute();
	e.incrementInputPlace("x");
	mc::quiesce();
	MC_CHECK(r > 0, "%s: %s accepted while running (in an action)", modeName(m), EDITNAME[k]);
	MC_CHECK(structure(e) == before, "%s: %s changed the net", modeName(m), EDITNAME[k]);
	e.stop();
	mc::quiesce();
}

// An import into a running engine stops it first.
static string document(Mode m)
{
	return string("<PTN-Engine actionsThreadOption=\"") + modeName(m) +
		   "\"><Places><Place name=\"p\" tokens=\"1\" input=\"true\"/></Places><Transitions><Transition><Name value=\"q\"/>"
		   "<RequireNoActionsInExecution value=\"false\"/></Transition></Transitions>"
		   "<Arcs><Arc><Place value=\"p\"/><Transition value=\"q\"/><Weight value=\"1\"/><Type value=\"Activation\"/></Arc></Arcs></PTN-Engine>";
}
MC_SCENARIO(import_stops, { .p = 2, .pThorough = 3, .shards = 12, .delayBounded = true })
{
	int c = mc::config(36);
	Mode m = ASYNC[c % 3], to = ALLMODES[c / 3 % 4];
	int when = c / 12;
	writeFile(scratch("in"), document(to));
	Eng e(m);
	build(e);
	e.execute();
	e.incrementInputPlace("a");
	if (when == 1)
		mc::quiesce();
	if (when == 2)
		e.stop();
	FileImporterFactory::createXMLFileImporter()->_import(scratch("in"), e);
	MC_CHECK(!e.isEventLoopRunning(), "running after an import");
	MC_CHECK(e.getActionsThreadOption() == to, "mode %s after importing %s", modeName(e.getActionsThreadOption()), modeName(to));
	MC_CHECK(tok(e, "p") == 1 && tok(e, "a") + tok(e, "b") == 1, "marking after the import: %s", engineMarking(e).c_str());
	string s = structure(e);
	MC_CHECK(s.find("Tq p*1,//") != string::npos && s.find("Tt a*1,/b*1,/c*1,") != string::npos, "net after the import:\n%s", s.c_str());
	mc::settle(200);
	MC_CHECK(tok(e, "p") == 1, "fired after the import");
	e.execute();
	mc::quiesce();
	MC_CHECK(engineMarking(e) == "a=0 b=1 c=0 n=0 p=0 ", "marking %s", engineMarking(e).c_str());
}
// Whatever the document has in it, the running engine is stopped and the mode set.
MC_SCENARIO(import_kinds, { .p = 1, .pThorough = 2, .shards = 8, .delayBounded = true })
{
	int c = mc::config(3 * 4 * 6);
	Mode m = ASYNC[c % 3], to = ALLMODES[c / 3 % 4];
	int kind = c / 12;
	static const char *PLACES = "<Places><Place name=\"p\" tokens=\"1\" input=\"true\"/></Places>",
					  *TRANSITIONS = "<Transitions><Transition><Name value=\"q\"/><RequireNoActionsInExecution value=\"false\"/></Transition></Transitions>";
	static const string BODY[] = { "", "<Places/><Transitions/><Arcs/>", PLACES, TRANSITIONS, string(PLACES) + TRANSITIONS,
								   "<Arcs><Arc><Place value=\"c\"/><Transition value=\"u\"/><Weight value=\"1\"/><Type value=\"Inhibitor\"/></Arc></Arcs>" };
	writeFile(scratch("in"), string("<PTN-Engine actionsThreadOption=\"") + modeName(to) + "\">" + BODY[kind] + "</PTN-Engine>");
	Eng e(m);
	build(e);
	e.execute();
	e.incrementInputPlace("a");
	FileImporterFactory::createXMLFileImporter()->_import(scratch("in"), e);
	MC_CHECK(!e.isEventLoopRunning(), "running after an import (document %d)", kind);
	MC_CHECK(e.getActionsThreadOption() == to, "mode %s after importing %s", modeName(e.getActionsThreadOption()), modeName(to));
	MC_CHECK(tok(e, "a") + tok(e, "b") == 1, "marking after the import: %s", engineMarking(e).c_str());
	MC_CHECK(e.getPlacesProperties().size() == (kind == 2 || kind == 4 ? 5u : 4u) && e.getTransitionsProperties().size() == (kind == 3 || kind == 4 ? 4u : 3u),
			 "document %d: net after the import:\n%s", kind, structure(e).c_str());
	mc::settle(200);
	if (kind == 3 || kind == 4)
		return; // the transition of the document can always fire
	e.execute();
	mc::quiesce();
	MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == 1, "marking %s", engineMarking(e).c_str());
}
