// The bundled example nets do what they are described to do, for every sequence of inputs (C24).
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <unordered_set>
#include "common.h"
#include "xml.h"

namespace factorial_example
{
using namespace ::std;
#define main factorial_main
#include "Examples/Factorial/main.cpp"
#undef main
}
#include "Examples/PhoneMenu/Controller/Controller.cpp"
#include "Examples/PhoneMenu/Controller/MenuStateMachine.cpp"
#include "Examples/PhoneMenu/Controller/XMLMenuStateMachine.cpp"
#include "Examples/PhoneMenu/View/CallLogView.cpp"
#include "Examples/PhoneMenu/View/MainMenuView.cpp"
#include "Examples/PhoneMenu/View/MessagesMenuView.cpp"
#define private public
#include "Examples/Elevator/Controller/ElevatorController.h"
#undef private
#include "Examples/Elevator/Controller/ElevatorController.cpp"
#include "Examples/Elevator/Controller/ElevatorPetriNet.cpp"

// What the program under test writes to cout.
struct Captured : std::streambuf
{
	string *text;
	std::streambuf *old;
	Captured()
	{
		mc::Outside out;
		text = new string;
		old = std::cout.rdbuf(this);
	}
	~Captured()
	{
		std::cout.rdbuf(old);
		mc::Outside out;
		delete text;
	}
	int overflow(int c) override
	{
		mc::Outside out;
		text->push_back((char)c);
		return c;
	}
	std::streamsize xsputn(const char *s, std::streamsize n) override
	{
		mc::Outside out;
		text->append(s, n);
		return n;
	}
	string str() const
	{
		mc::Outside out;
		return *text;
	}
};

// ---- Factorial ----
MC_SCENARIO(factorial, { .p = 0, .pThorough = 0 })
{
	Captured c;
	mc::seeds(2, 8);
	factorial_example::factorial_main(0, nullptr);
	string out = c.str();
	for (const char *s : { "of 0 is 1", "of 1 is 1", "of 2 is 2", "of 3 is 6", "of 6 is 720", "of 10 is 3628800" })
		MC_CHECK(out.find(string("The factorial ") + s + "\n") != string::npos, "%s not in %s", s, out.c_str());
}

// ---- Phone menu ----
// The menu as described: A switches between the options or to the next message, B selects, C leaves. A key that means
// nothing where it is pressed is kept until it does (the tokens of the input places are never taken away).
enum { CALLS, MESSAGES, LOG, LIST, SHOW };
struct Menu
{
	int at, message, a, b, c;
	string screen;
	auto operator<=>(const Menu &) const = default;
};
static string mainScreen(int i) { return string("OPTIONS:\n\tCall Log\n\tMessages\n\nSELECTED: ") + (i ? "Messages\n" : "Call Log\n"); }
static const char *TITLES[] = { "Hi...", "Is...", "Please..." };
static const char *BODIES[] = { "water the plants", "is this working?", "top up" };
static string screenOf(int at, int message)
{
	string s;
	switch (at)
	{
	case CALLS: return mainScreen(0);
	case MESSAGES: return mainScreen(1);
	case LOG: return "10:05 - John\n09:35 - Sally\n";
	case LIST:
		for (int i = 0; i < 3; ++i)
			s += string(i == message ? "=>" : "  ") + char('0' + i) + " - " + TITLES[i] + "\n";
		return s;
	default: return string("TITLE:\n") + TITLES[message] + "\n\nMESSAGE:\n" + BODIES[message] + "\n\n";
	}
}
// Everything the menu may have come to, once nothing is possible any more (or, with all, on the way there too).
static void settled(Menu m, std::set<Menu> &out, bool all = false)
{
	bool any = all;
	if (all && !out.insert(m).second)
		return;
	auto go = [&](int at, int message)
	{
		Menu n = m;
		n.at = at;
		n.message = message;
		n.screen += screenOf(at, message);
		any = true;
		return n;
	};
	auto use = [&](int Menu::*key, int at, int message)
	{
		if (m.*key == 0)
			return;
		Menu n = go(at, message);
		--(n.*key);
		settled(n, out, all);
	};
	switch (m.at)
	{
	case CALLS: use(&Menu::a, MESSAGES, m.message); use(&Menu::b, LOG, m.message); break;
	case MESSAGES: use(&Menu::a, CALLS, m.message); use(&Menu::b, LIST, m.message); break;
	case LOG: use(&Menu::c, CALLS, m.message); break;
	case LIST: use(&Menu::a, LIST, (m.message + 1) % 3); use(&Menu::b, SHOW, m.message); use(&Menu::c, MESSAGES, m.message); break;
	default: use(&Menu::c, LIST, m.message);
	}
	if (!any)
		out.insert(m);
}
struct Phone
{
	List<Message> messages;
	List<Call> calls;
	MainMenuView mainView;
	MessagesView messagesView{ messages };
	CallLogView logView{ calls };
	Controller controller{ mainView, messagesView, logView, messages, calls };
	Phone()
	{
		for (int i = 0; i < 3; ++i)
			messages.addItem(Message(TITLES[i], BODIES[i]));
		calls.addItem(Call("10:05", "John"));
		calls.addItem(Call("09:35", "Sally"));
	}
	void press(int k) { k == 0 ? controller.pressA() : k == 1 ? controller.pressB() : controller.pressC(); }
};
static const char *PLACES[] = { "CallsMenuSelected", "MessagesMenuSelected", "CallsLog", "MessagesMenu", "ShowMessage" };
static void checkMenu(const ptne::PTN_Engine &e, const string &shown, const std::set<Menu> &may)
{
	for (auto &m : may)
	{
		bool same = shown == m.screen && (int)e.getNumberOfTokens("InputA") == m.a && (int)e.getNumberOfTokens("InputB") == m.b
					&& (int)e.getNumberOfTokens("InputC") == m.c;
		for (int i = 0; i < 5; ++i)
			same &= (int)e.getNumberOfTokens(PLACES[i]) == (i == m.at);
		for (const char *p : { "SelectMessagesOption", "SelectCallsOption", "NextMessage" })
			same &= e.getNumberOfTokens(p) == 0;
		if (same)
			return;
	}
	string s;
	for (auto *p : PLACES)
		s += string(p) + ":" + std::to_string(e.getNumberOfTokens(p)) + " ";
	auto &m = *may.begin();
	mc::fail("%s A%d B%d C%d, shown %s; expected e.g. %s A%d B%d C%d, shown %s", s.c_str(), (int)e.getNumberOfTokens("InputA"),
			 (int)e.getNumberOfTokens("InputB"), (int)e.getNumberOfTokens("InputC"), shown.c_str(), PLACES[m.at], m.a, m.b, m.c,
			 m.screen.c_str());
}
static std::set<Menu> pressed(const std::set<Menu> &may, int k, bool patient)
{
	std::set<Menu> next;
	for (auto m : may)
	{
		++(k == 0 ? m.a : k == 1 ? m.b : m.c);
		settled(m, next, !patient);
	}
	return next;
}
// Keys: pressed one after the other, with or without time to react in between.
static std::set<Menu> run(Phone &p, ptne::PTN_Engine &e, const Captured &c, std::set<Menu> may, int keys, bool patient, int first)
{
	// as main() does it: the first key is A (what the main menu shows as selected is not set before)
	p.controller.execute();
	mc::quiesce();
	p.press(0);
	may = pressed(may, 0, true);
	mc::quiesce();
	checkMenu(e, c.str(), may);
	for (int i = 0; i < keys; ++i)
	{
		int k = i == 0 ? first / 3 : i == 1 ? first % 3 : mc::choose(3);
		p.press(k);
		may = pressed(may, k, patient);
		if (patient)
		{
			mc::quiesce();
			checkMenu(e, c.str(), may);
		}
	}
	if (!patient)
	{
		mc::quiesce();
		std::set<Menu> last;
		for (auto &m : may)
			settled(m, last);
		may = last;
		checkMenu(e, c.str(), may);
	}
	p.controller.stop();
	for (auto &m : may)
		mc::state(std::hash<string>()(m.screen) + m.at + 5 * m.message + 15 * m.a + 150 * m.b + 1500 * m.c);
	// of the states it may be in, those it is in
	std::set<Menu> is;
	for (auto &m : may)
		if (m.screen == c.str() && e.getNumberOfTokens(PLACES[m.at]) == 1 && (int)e.getNumberOfTokens("InputA") == m.a
			&& (int)e.getNumberOfTokens("InputB") == m.b && (int)e.getNumberOfTokens("InputC") == m.c)
			is.insert(m);
	return is;
}
static std::shared_ptr<MenuStateMachine> coded(Phone &p)
{
	auto m = std::make_shared<MenuStateMachine>();
	p.controller.setStateMachine(m);
	return m;
}
static string phoneXml() { return string(MC_EXAMPLES) + "/Examples/PhoneMenu/assets/PhoneMenu.xml"; }
static std::shared_ptr<XMLMenuStateMachine> imported(Phone &p)
{
	auto m = std::make_shared<XMLMenuStateMachine>();
	p.controller.setStateMachine(m);
	m->importStateMachine(phoneXml());
	return m;
}
static void phone(bool xml, int keys, bool patient)
{
	int first = mc::config(9);
	mc::seeds(2, 3);
	Phone p;
	Captured c;
	if (xml)
	{
		auto m = imported(p);
		run(p, *m, c, { { MESSAGES, 0, 0, 0, 0, "" } }, keys, patient, first);
	}
	else
	{
		auto m = coded(p);
		run(p, *m, c, { { CALLS, 0, 0, 0, 0, "" } }, keys, patient, first);
	}
}
MC_SCENARIO(phone_coded, { .p = 0, .pThorough = 0, .shards = 9 }) { phone(false, 5, true); }
MC_SCENARIO(phone_xml, { .p = 0, .pThorough = 0, .shards = 9 }) { phone(true, 5, true); }
MC_SCENARIO(phone_hasty_coded, { .p = 1, .pThorough = 2, .shards = 9, .delayBounded = true }) { phone(false, 3, false); }
MC_SCENARIO(phone_hasty_xml, { .p = 1, .pThorough = 2, .shards = 9, .delayBounded = true }) { phone(true, 3, false); }
// The state machine is exchanged; the file it came from and the one exported by it give the same net.
MC_SCENARIO(phone_switch, { .p = 0, .pThorough = 0, .shards = 9 })
{
	int first = mc::config(9), second = mc::choose(9);
	mc::seeds(2, 2);
	Phone p;
	Captured c;
	std::set<Menu> was;
	{
		auto m = coded(p);
		was = run(p, *m, c, { { CALLS, 0, 0, 0, 0, "" } }, 2, true, first);
	}
	auto m = imported(p);
	string file = scratch("phone");
	m->exportStateMachine(file);
	std::set<Menu> now;
	for (auto &w : was)
		now.insert({ MESSAGES, w.message, 0, 0, 0, w.screen });
	auto after = run(p, *m, c, now, 2, true, second);
	auto again = std::make_shared<XMLMenuStateMachine>();
	p.controller.setStateMachine(again);
	again->importStateMachine(file);
	std::set<Menu> then;
	for (auto &w : after)
		then.insert({ MESSAGES, w.message, 0, 0, 0, w.screen });
	run(p, *again, c, then, 2, true, first);
}

// ---- Elevator ----
static int sum(const ptne::PTN_Engine &e, std::initializer_list<const char *> places)
{
	size_t n = 0;
	for (auto p : places)
		n += e.getNumberOfTokens(p);
	return (int)n;
}
static void checkElevator(const ElevatorController &c, const string &shown)
{
	auto &e = (const ptne::PTN_Engine &)static_cast<const ElevatorPetriNet &>(*c.m_pPetriNet);
	MC_CHECK(sum(e, { "Stopped", "Stopped_", "Moving", "Moving_" }) == 1, "neither or both stopped and moving");
	MC_CHECK(sum(e, { "DoorsOpened", "DoorsClosed", "DoorsClosed_" }) == 1, "doors neither or both open and closed");
	MC_CHECK(!(sum(e, { "Moving", "Moving_" }) && sum(e, { "DoorsOpened" })), "moving with open doors");
	MC_CHECK(c.m_currentFloor >= 0 && c.m_currentFloor <= 10, "floor %d", c.m_currentFloor);
	MC_CHECK(sum(e, { "GoingUp", "GoingUp_", "GoingDown", "GoingDown_" }) <= 1, "going up and down");
	mc::state(c.m_currentFloor * 64 + sum(e, { "DoorsOpened" }) * 8 + sum(e, { "GoingUp_" }) * 2 + sum(e, { "GoingDown_" }));
}
static void ride(int length, int seeds)
{
	static const int FLOORS[] = { 0, 2, 5, 10 };
	int first = mc::config(14);
	Captured c;
	mc::fixSeed(mc::choose(seeds));
	ElevatorController e;
	mc::maxTimers(200);
	for (int i = 0; i < length; ++i)
	{
		int k = i == 0 ? first : mc::choose(14);
		if (k == 0)
			e.openDoors();
		else if (k == 1)
			e.closeDoors();
		else if (k < 6)
			e.setDestinationFloor(FLOORS[k - 2]);
		else if (k < 10)
			e.callElevatorUp(FLOORS[k - 6]);
		else if (k < 14)
			e.callElevatorDown(FLOORS[k - 10]);
		mc::quiesce();
		mc::settle(3000);
		checkElevator(e, c.str());
		mc::outcome("floor %d", e.m_currentFloor);
	}
	e.stop();
}
MC_SCENARIO(elevator, { .p = 0, .pThorough = 0, .shards = 14 }) { ride(3, 2); }
MC_SCENARIO(elevator_long, { .p = 0, .pThorough = 0, .shards = 14, .thoroughOnly = true }) { ride(4, 3); }
// A waiting elevator serves what it is asked for: the floors above, in order, with open doors at each.
MC_SCENARIO(elevator_serves, { .p = 0, .pThorough = 0, .shards = 10 })
{
	int f1 = 1 + mc::config(10), f2 = mc::choose(11), order = mc::choose(2), how = mc::choose(3);
	if (how == 1 && f1 == 10)
		how = 0;
	Captured c;
	mc::fixSeed(mc::choose(4));
	ElevatorController e;
	mc::maxTimers(400);
	auto act = [&](int k, int f = 0)
	{
		switch (k)
		{
		case 0: e.closeDoors(); break;
		case 1: e.callElevatorUp(f); break;
		case 2: e.callElevatorDown(f); break;
		default: e.setDestinationFloor(f);
		}
		mc::quiesce();
		mc::settle(3000);
		checkElevator(e, c.str());
	};
	if (order)
		act(0); // the doors are closed before the request: the elevator leaves at once
	act(how == 0 ? 3 : how, f1);
	if (!order && f2 && f2 != f1)
		act(3, f2);
	if (!order)
		act(0);
	auto at = [&](int f)
	{
		MC_CHECK(e.m_currentFloor == f, "at floor %d, not %d: %s", e.m_currentFloor, f, c.str().c_str());
		auto &n = (const ptne::PTN_Engine &)static_cast<const ElevatorPetriNet &>(*e.m_pPetriNet);
		MC_CHECK(sum(n, { "Stopped_", "DoorsOpened" }) == 2, "does not stop with open doors at %d: %s", f, c.str().c_str());
		mc::outcome("floor %d", f);
	};
	if (order || !f2 || f1 == f2)
		at(f1);
	else
	{
		at(std::min(f1, f2));
		act(0);
		at(std::max(f1, f2));
	}
	e.stop();
}
// Destroyed at any moment, with actions waiting or being executed.
MC_SCENARIO(elevator_left, { .p = 2, .pThorough = 3, .shards = 6, .delayBounded = true })
{
	int k = mc::config(6);
	Captured c;
	{
		ElevatorController e;
		if (k & 1)
			e.setDestinationFloor(2);
		else
			e.callElevatorDown(1);
		e.closeDoors();
		if (k == 2 || k == 3)
			mc::quiesce();
		if (k >= 4)
			e.stop();
	}
}
MC_SCENARIO(phone_left, { .p = 3, .pThorough = 4, .shards = 4, .delayBounded = true })
{
	int k = mc::config(4);
	Captured c;
	Phone p;
	std::shared_ptr<MenuStateMachine> a;
	std::shared_ptr<XMLMenuStateMachine> b;
	k & 1 ? void(a = coded(p)) : void(b = imported(p));
	a.reset();
	b.reset();
	p.controller.execute();
	p.press(0);
	p.press(1);
	if (k & 2)
		p.controller.stop();
}
