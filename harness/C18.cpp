// XML export followed by import reproduces the net (C18).
#include "refnet.h"
#include "xml.h"
#include <locale>

static const size_t VALUES[] = { 0, 1, 2, 9, 10, 99, 100, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297,
								 9007199254740993, 9223372036854775807ull, 9223372036854775808ull, 9999999999999999999ull, 10000000000000000000ull,
								 SIZE_MAX - 1, SIZE_MAX };
static const int NVALUES = sizeof VALUES / sizeof *VALUES;

// Registers every function the net refers to. Function identities are those of the net.
static void registerAll(Eng &e, Probe &pr, const RefNet &n)
{
	std::map<string, int> a, c;
	for (auto &[_, p] : n.places)
	{
		if (!p.enterName.empty())
			a[p.enterName] = p.enterId;
		if (!p.exitName.empty())
			a[p.exitName] = p.exitId;
	}
	for (auto &[_, t] : n.trans)
		for (auto &[name, id] : t.conds)
			c[name] = id;
	for (auto &[name, id] : a)
		e.registerAction(name, pr.act(id));
	for (auto &[name, id] : c)
		e.registerCondition(name, pr.cond(id));
}
static void build(Eng &e, Probe &pr, const RefNet &n, Build b)
{
	registerAll(e, pr, n);
	for (auto &[name, p] : n.places)
	{
		PlaceProperties q;
		q.name = name;
		q.initialNumberOfTokens = p.tokens;
		q.input = p.input;
		q.onEnterActionFunctionName = p.enterName;
		q.onExitActionFunctionName = p.exitName;
		e.createPlace(q);
	}
	for (auto &[name, t] : n.trans)
	{
		vector<string> conds;
		for (auto &c : t.conds)
			conds.push_back(c.first);
		buildTransition(e, name, t, b, {}, conds);
	}
}
static void equal(const Eng &e, Mode m, const RefNet &n, Probe &pr, const char *what)
{
	string got = snapshot(e, &pr), want = snapshot(n, true);
	MC_CHECK(got == want, "%s: the net is\n%sinstead of\n%s", what, got.c_str(), want.c_str());
	MC_CHECK(e.getActionsThreadOption() == m, "%s: mode %s instead of %s", what, modeName(e.getActionsThreadOption()), modeName(m));
	MC_CHECK(!e.isEventLoopRunning(), "%s: running", what);
}
// From an engine in mode m through a file into an engine in mode `other`, and once more from there.
static void roundTrip(const RefNet &n, Mode m, Build b, Mode other)
{
	Probe pr, pr2, pr3;
	Eng e(m), f(other), g;
	build(e, pr, n, b);
	registerAll(f, pr2, n);
	registerAll(g, pr3, n);
	auto x = FileExporterFactory::createXMLFileExporter();
	auto i = FileImporterFactory::createXMLFileImporter();
	x->_export(e, scratch("one"));
	equal(e, m, n, pr, "the exported engine");
	i->_import(scratch("one"), f);
	equal(f, m, n, pr2, "the importing engine");
	x->_export(f, scratch("two"));
	i->_import(scratch("two"), g);
	equal(g, m, n, pr3, "after a second round");
	mc::state(std::hash<string>{}(snapshot(n, true)));
}

// Every combination of a place's properties.
MC_SCENARIO(places, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(4 * 3 * 3 * 2);
	for (int v = 0; v < NVALUES; ++v)
	{
		RefNet n;
		auto set = [](RefPlace &p, int c, size_t tokens)
		{
			p.tokens = tokens;
			p.input = c & 1;
			int en = c / 2 % 3, ex = c / 6 % 3;
			p.enterName = en ? en == 1 ? "f" : "g" : "";
			p.enterId = en ? en : -1;
			p.exitName = ex ? ex == 1 ? "f" : "g" : "";
			p.exitId = ex ? ex : -1;
		};
		set(n.places["p"], c / 4, VALUES[v]);
		set(n.places["q"], (c / 4 * 5 + v) % 18, VALUES[(v * 7 + c) % NVALUES]);
		roundTrip(n, ALLMODES[c % 4], Build::CREATE, ALLMODES[(c / 4 + v) % 4]);
	}
}
// Every combination of arcs of a transition with two places, its conditions and flag.
static void arcsOf(int c, const vector<size_t> &in, const vector<size_t> &out, RefTrans &t, const string &p)
{
	int kinds = (int)(in.size() * out.size() * 3);
	(void)kinds;
	int i = c % in.size(), o = c / in.size() % out.size(), h = c / in.size() / out.size() % 3;
	if (i)
		t.in.push_back({ p, in[i] == 77 ? 0 : in[i] });
	if (o)
		t.out.push_back({ p, out[o] });
	if (h)
		t.inh.push_back({ p, h == 1 ? 1 : (size_t)12 });
}
MC_SCENARIO(arcs, { .p = 0, .pThorough = 0, .shards = 8 })
{
	// per place: activation none, 1, 3, reset; destination none, 1, 3; inhibitor none, 1, 12
	const vector<size_t> in{ 0, 1, 3, 77 }, out{ 0, 1, 3 };
	int c = mc::config(36);
	for (int d = 0; d < 36; ++d)
	{
		RefNet n;
		n.places["a"].tokens = 4;
		n.places["b"];
		auto &t = n.trans["t"];
		arcsOf(c, in, out, t, "a");
		arcsOf(d, in, out, t, "b");
		t.noAct = (c + d) & 1;
		for (int k = 0; k < (c * 3 + d) % 4; ++k)
			t.conds.push_back({ k == 1 ? "c0" : "c" + std::to_string(k), k == 1 ? 20 : 20 + k });
		roundTrip(n, ALLMODES[(c + d) % 4], Build((c + d / 2) % BUILDS), Mode::SINGLE_THREAD);
	}
}
// Every weight, in every kind of arc.
MC_SCENARIO(weights, { .p = 0, .pThorough = 0, .shards = 1 })
{
	int v = mc::config(NVALUES), kind = mc::choose(3);
	RefNet n;
	n.places["a"].tokens = VALUES[v];
	n.places["b"].tokens = VALUES[NVALUES - 1 - v];
	auto &t = n.trans["t"];
	auto &list = kind == 0 ? t.in : kind == 1 ? t.out : t.inh;
	if (kind && !VALUES[v])
		return;
	list.push_back({ "a", VALUES[v] });
	list.push_back({ "b", VALUES[v] / 2 + 1 });
	roundTrip(n, Mode::EVENT_LOOP, Build::ADD, Mode::DETACHED);
}
// Several transitions: conditions in common, no arcs at all, the same arcs.
MC_SCENARIO(transitions, { .p = 0, .pThorough = 0, .shards = 1 })
{
	int size = mc::config(7);
	for (int k = 0; k < 4; ++k)
	{
		RefNet n;
		for (int i = 0; i < size; ++i)
		{
			auto s = std::to_string(i);
			n.places["p" + s].tokens = i;
			auto &t = n.trans["t" + s];
			t.noAct = (i + k) & 1;
			if (k & 1)
				for (int j = 0; j <= i; ++j)
				{
					auto q = "p" + std::to_string(j);
					t.in.push_back({ q, (size_t)i + 1 });
					t.out.insert(t.out.begin(), { q, (size_t)j + 1 });
					t.inh.push_back({ q, 1 });
				}
			if (k & 2)
				for (int j = size; j > i; --j)
					t.conds.push_back({ "c" + std::to_string(j), j });
		}
		roundTrip(n, ALLMODES[k], Build((size + k) % BUILDS), ALLMODES[3 - k]);
	}
}

// Names: every character (but NUL), alone, doubled, at either end and inside; every pair of characters that mean
// something in XML.
static void named(const string &s, const string &t)
{
	if (s == t)
		return;
	RefNet n;
	n.places[s] = { 1, true, s, t, 1, 2 };
	n.places[t] = { 2, false, t, s, 2, 1 };
	auto &r = n.trans[t];
	r.in.push_back({ s, 1 });
	r.out.push_back({ t, 2 });
	r.conds.push_back({ s, 5 });
	r.conds.push_back({ t, 6 });
	n.trans[s].inh.push_back({ t, 3 });
	roundTrip(n, Mode::SINGLE_THREAD, Build::ADD, Mode::SINGLE_THREAD);
}
MC_SCENARIO(characters, { .p = 0, .pThorough = 0, .shards = 8 })
{
	int c = 1 + mc::config(255);
	string x(1, (char)c);
	named(x, x + x);
	named(x + "n", "n" + x);
	named("n" + x + "m", "nm");
	named(" " + x, x + " ");
	named("&" + x + ";", "&#" + x);
	named("\n" + x + "\t", "]]>" + x);
}
MC_SCENARIO(special_names, { .p = 0, .pThorough = 0, .shards = 4 })
{
	const vector<string> N{ "<", ">", "&", "\"", "'", "&amp;", "&#10;", "&lt;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml?>", "\t", "\n", "\r", "\r\n", " ",
							"  ", " a ", "true", "0", "Activation", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "</Place>", "\"/>", "/", "=", "a=\"b\"",
							"%s%n", string(5000, 'x'), string(5000, '&'), "PTN-Engine", "\x7f", "\x01", "a b", "\n\n" };
	int c = mc::config((int)N.size());
	for (auto &y : N)
		named(N[c], y == N[c] ? y + "2" : y);
}

// The current numbers of tokens are exported, also after runs, stops and changes of the net; one exporter and one
// importer object serve several engines and files; an existing file is replaced.
MC_SCENARIO(current_state, { .p = 0, .pThorough = 1, .shards = 4 })
{
	Mode m = ALLMODES[mc::config(4)];
	auto x = FileExporterFactory::createXMLFileExporter();
	auto im = FileImporterFactory::createXMLFileImporter();
	RefNet n;
	n.places["a"] = { 3, true };
	n.places["b"] = { 0, true };
	n.places["c"];
	n.trans["t"].in = { { "a", 2 } };
	n.trans["t"].out = { { "b", 1 } };
	n.trans["u"].in = { { "b", 2 } };
	n.trans["u"].out = { { "c", 1 } };
	Probe pr;
	Eng e(m);
	build(e, pr, n, Build::CREATE);
	writeFile(scratch("file"), string(20000, '<'));
	for (int i = 0; i < 4; ++i)
	{
		int k = mc::choose(i < 3 ? 4 : 1);
		if (k == 1)
		{
			e.incrementInputPlace("a");
			++n.places["a"].tokens;
		}
		if (k == 2)
		{
			e.execute();
			mc::quiesce();
			e.stop();
			while (!n.fireable().empty())
				n.fire(n.fireable()[0]);
		}
		if (k == 3)
		{
			string s = std::to_string(i);
			place(e, { "p" + s, 5 });
			n.places["p" + s].tokens = 5;
			e.addArc(arc("p" + s, 0, AT::ACTIVATION, "u"));
			n.trans["u"].in.push_back({ "p" + s, 0 });
		}
		if (k)
			continue;
		x->_export(e, scratch("file"));
		Eng f;
		im->_import(scratch("file"), f);
		equal(f, m, n, pr, "the importing engine");
		equal(e, m, n, pr, "the exported engine");
	}
}
// One exporter and one importer for two different engines, in every order of four uses.
MC_SCENARIO(reuse, { .p = 0, .pThorough = 0 })
{
	auto x = FileExporterFactory::createXMLFileExporter();
	auto im = FileImporterFactory::createXMLFileImporter();
	RefNet n[3];
	n[0].places["a"].tokens = 1;
	n[0].trans["t"].in = { { "a", 1 } };
	n[1].places["a"].tokens = 2;
	n[1].places["b"].input = true;
	n[1].trans["t"].out = { { "a", 7 } };
	n[1].trans["u"].noAct = true;
	Probe pr;
	Mode m[] = { Mode::DETACHED, Mode::EVENT_LOOP, Mode::JOB_QUEUE };
	std::unique_ptr<Eng> e[3];
	for (int i = 0; i < 3; ++i)
	{
		e[i].reset(new Eng(m[i]));
		build(*e[i], pr, n[i], Build::ADD);
	}
	int file[2] = { -1, -1 };
	for (int s = 0; s < 4; ++s)
	{
		int k = mc::choose(8);
		if (k < 6)
		{
			x->_export(*e[k % 3], scratch(k < 3 ? "f0" : "f1"));
			file[k / 3] = k % 3;
		}
		else if (file[k - 6] >= 0)
		{
			Eng f;
			im->_import(scratch(k == 6 ? "f0" : "f1"), f);
			equal(f, m[file[k - 6]], n[file[k - 6]], pr, "the importing engine");
		}
		else
		{
			// the importer also survives a document it refuses
			writeFile(scratch("bad"), "<PTN-Engine actionsThreadOption=\"EVENT_LOOP\"><Places><Place name=\"z\"/>");
			Eng f;
			MC_CHECK(throws([&] { im->_import(scratch("bad"), f); }) != 0, "imported a truncated document");
			MC_CHECK(throws([&] { x->_export(*e[0], scratch("no/such/directory")); }) != 0, "exported to nowhere");
		}
	}
}
// The application's locale does not matter.
struct OtherNumbers : std::numpunct<char>
{
	char do_thousands_sep() const override { return ','; }
	char do_decimal_point() const override { return ';'; }
	string do_grouping() const override { return "\3"; }
	string do_truename() const override { return "ja"; }
	string do_falsename() const override { return "nein"; }
};
MC_SCENARIO(locale, { .p = 0, .pThorough = 0, .shards = 2 })
{
	int c = mc::config(4 * 4);
	struct Global
	{
		Global() : old(std::locale::global(std::locale(std::locale::classic(), new OtherNumbers))) {}
		~Global() { std::locale::global(old); }
		std::locale old;
	} global;
	const size_t v = VALUES[mc::choose(NVALUES)], w = VALUES[(mc::choose(3) * 7 + 3) % NVALUES];
	RefNet n;
	n.places["a"] = { v, (c & 4) != 0, "f", "", 1, -1 };
	n.places["b"] = { w, false, "", "", -1, -1 };
	n.trans["t"].in = { { "a", w } };
	n.trans["t"].out = { { "b", v ? v : 1 } };
	n.trans["t"].inh = { { "b", w } };
	n.trans["t"].noAct = c & 8;
	roundTrip(n, ALLMODES[c % 4], Build::CREATE, ALLMODES[(c + 1) % 4]);
}

// The imported net behaves as the exported one.
MC_SCENARIO(behaviour, { .p = 0, .pThorough = 1, .shards = 4 })
{
	int c = mc::config(4 * 8);
	Mode m = ALLMODES[c % 4];
	mc::seeds(2, 2);
	RefNet n;
	n.places["a"] = { 2, true, "f", "", 1, -1 };
	n.places["b"] = { 0, false, "", "f", -1, 1 };
	n.places["c"] = { (size_t)(c / 4 & 1), false };
	n.trans["t"].in = { { "a", 1 } };
	n.trans["t"].out = { { "b", 1 } };
	n.trans["t"].inh = { { "c", 1 } };
	n.places["once"].tokens = 1;
	n.trans["u"].in = { { "a", (size_t)(c / 8 & 1 ? 0 : 2) }, { "once", 1 } };
	n.trans["u"].out = { { "c", 2 } };
	n.trans["u"].conds = { { "cond", 3 } };
	n.trans["v"].in = { { "b", 2 }, { "c", 1 } };
	n.trans["v"].noAct = true;
	int count = 0;
	bool value = c / 16 & 1;
	auto cond = [&](int) { return value; };
	auto act = [&] { mc::Outside o; ++count; };
	Eng e(m), f(Mode::SINGLE_THREAD);
	for (Eng *g : { &e, &f })
	{
		g->registerAction("f", act);
		g->registerCondition("cond", [&] { return value; });
	}
	Probe pr;
	for (auto &[name, p] : n.places)
	{
		PlaceProperties q;
		q.name = name;
		q.initialNumberOfTokens = p.tokens;
		q.input = p.input;
		q.onEnterActionFunctionName = p.enterName;
		q.onExitActionFunctionName = p.exitName;
		e.createPlace(q);
	}
	for (auto &[name, t] : n.trans)
		buildTransition(e, name, t, Build::CREATE, {}, t.conds.empty() ? vector<string>{} : vector<string>{ "cond" });
	FileExporterFactory::createXMLFileExporter()->_export(e, scratch("x"));
	FileImporterFactory::createXMLFileImporter()->_import(scratch("x"), f);
	for (Eng *g : { &e, &f })
	{
		g->execute();
		mc::quiesce();
		g->incrementInputPlace("a");
		if (m == Mode::SINGLE_THREAD)
			g->execute();
		mc::quiesce();
		g->stop();
		string got = engineMarking(*g);
		std::set<string> want;
		{
			mc::Outside o;
			for (auto &s : n.finals(cond))
			{
				RefNet k = n;
				std::istringstream in(s);
				string w;
				while (in >> w)
					k.places[w.substr(0, w.find('='))].tokens = std::stoull(w.substr(w.find('=') + 1));
				++k.places["a"].tokens;
				for (auto &x : k.finals(cond))
					want.insert(x);
			}
		}
		MC_CHECK(want.count(got), "%s: ends in %s", g == &e ? "exported" : "imported", got.c_str());
		mc::outcome("%s", got.c_str());
	}
	mc::Outside o;
	MC_CHECK(count >= 2, "no action");
}
