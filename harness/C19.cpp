// Import and export never silently produce something wrong (C19): every single-point change of a document, judged
// by an independent interpretation of the document.
#include "refnet.h"
#include "xml.h"

struct Node
{
	string name;
	vector<std::pair<string, string>> attrs;
	vector<Node> kids;
	const string *attr(const string &n) const
	{
		for (auto &a : attrs)
			if (a.first == n)
				return &a.second;
		return nullptr;
	}
	const Node *kid(const string &n) const
	{
		for (auto &k : kids)
			if (k.name == n)
				return &k;
		return nullptr;
	}
};
static string write(const Node &n, int indent = 0)
{
	string s = string(indent, '\t') + "<" + n.name;
	for (auto &[a, v] : n.attrs)
		s += " " + a + "=\"" + escape(v) + "\"";
	if (n.kids.empty())
		return s + " />\n";
	s += ">\n";
	for (auto &k : n.kids)
		s += write(k, indent + 1);
	return s + string(indent, '\t') + "</" + n.name + ">\n";
}
static Node val(const string &name, const string &v) { return { name, { { "value", v } }, {} }; }
static Node place(const string &n, const string &tokens, const string &input, const string &enter, const string &exit)
{
	return { "Place", { { "name", n }, { "tokens", tokens }, { "input", input }, { "onEnterAction", enter }, { "onExitAction", exit } }, {} };
}
static Node arcNode(const string &p, const string &t, const string &w, const string &type)
{
	return { "Arc", {}, { val("Place", p), val("Transition", t), val("Weight", w), val("Type", type) } };
}
static Node transition(const string &n, const vector<string> &conds, const string &noAct)
{
	Node c{ "ActivationConditions", {}, {} };
	for (auto &x : conds)
		c.kids.push_back({ "ActivationCondition", { { "name", x } }, {} });
	return { "Transition", {}, { val("Name", n), c, val("RequireNoActionsInExecution", noAct) } };
}
static Node legacy(const string &list, const string &item, const vector<std::pair<string, string>> &arcs)
{
	Node l{ list, {}, {} };
	for (auto &[p, w] : arcs)
		l.kids.push_back({ item, { { "name", p }, { "weight", w } }, {} });
	return l;
}
static Node document(int k)
{
	Node places{ "Places", {}, { place("p", "3", "true", "f", "g"), place("q", "0", "false", "", ""), place("r", "12", "", "g", "") } };
	Node trans{ "Transitions", {}, { transition("t", { "c", "d" }, "true"), transition("u", {}, "false") } };
	Node arcs{ "Arcs", {}, {} };
	if (k == 0)
		arcs.kids = { arcNode("p", "t", "2", "Activation"), arcNode("q", "t", "1", "Destination"), arcNode("r", "t", "1", "Inhibitor"),
					  arcNode("q", "u", "3", "Bidirectional"), arcNode("p", "u", "0", "Activation") };
	else
	{
		trans.kids[0].kids.push_back(legacy("ActivationPlaces", "ActivationPlace", { { "p", "2" }, { "q", "" } }));
		trans.kids[0].kids.push_back(legacy("DestinationPlaces", "DestinationPlace", { { "q", "7" } }));
		trans.kids[1].kids.push_back(legacy("InhibitorPlaces", "InhibitorPlace", { { "q", "1" }, { "p", "4" } }));
	}
	Node root{ "PTN-Engine", { { "version", "3.0" }, { "format", "1" }, { "name", "n" }, { "actionsThreadOption", "EVENT_LOOP" } }, { places, trans, arcs } };
	return root;
}

// ---- the reference interpretation ----------------------------------------------------------------------------------
struct Meaning
{
	bool refuse = false;   // has to be refused
	bool mayRefuse = false;// may be refused
	RefNet net;
	Mode mode = Mode::SINGLE_THREAD;
	void no() { refuse = true; }
};
static bool number(const string &s, size_t &n)
{
	if (s.empty() || s.find_first_not_of("0123456789") != string::npos)
		return false;
	unsigned __int128 v = 0;
	for (char c : s)
	{
		v = v * 10 + (c - '0');
		if (v > SIZE_MAX)
			return false;
	}
	n = (size_t)v;
	return true;
}
static const std::map<string, int> ACTIONS{ { "f", 1 }, { "g", 2 } }, CONDS{ { "c", 3 }, { "d", 4 } };
static Meaning meaning(const Node &root)
{
	const std::map<string, int> ACTIONS{ { "f", 1 }, { "g", 2 } }, CONDS{ { "c", 3 }, { "d", 4 } };
	Meaning m;
	static const string empty;
	auto attr = [](const Node &n, const char *a) -> string { auto *p = n.attr(a); return p ? *p : string(); };
	auto child = [&](const Node &n, const char *c) -> string { auto *k = n.kid(c); return k ? attr(*k, "value") : string(); };
	if (root.name != "PTN-Engine")
		m.no();
	string mode = attr(root, "actionsThreadOption");
	bool known = false;
	for (auto x : ALLMODES)
		if (mode == modeName(x))
		{
			known = true;
			m.mode = x;
		}
	if (!known)
		m.no();
	auto &net = m.net;
	if (auto *ps = root.kid("Places"))
		for (auto &p : ps->kids)
		{
			RefPlace r;
			string name = attr(p, "name"), tokens = attr(p, "tokens"), input = attr(p, "input");
			if (name.empty() || net.places.count(name))
				m.no();
			if (!tokens.empty() && !number(tokens, r.tokens))
				m.no();
			if (input != "" && input != "true" && input != "false")
				m.no();
			r.input = input == "true";
			for (auto [n, id, a] : { std::tuple<string &, int &, const char *>(r.enterName, r.enterId, "onEnterAction"),
									  std::tuple<string &, int &, const char *>(r.exitName, r.exitId, "onExitAction") })
			{
				n = attr(p, a);
				if (n.empty())
					continue;
				if (ACTIONS.count(n))
					id = ACTIONS.at(n);
				else
					m.no();
			}
			if (p.name != "Place")
				m.mayRefuse = true;
			net.places[name] = r;
		}
	auto add = [&](vector<RefArc> &l, const string &p, size_t w)
	{
		for (auto &a : l)
			if (a.place == p)
				m.no();
		if (!net.places.count(p))
			m.no();
		l.push_back({ p, w });
	};
	if (auto *ts = root.kid("Transitions"))
		for (auto &t : ts->kids)
		{
			RefTrans r;
			string name = child(t, "Name"), noAct = child(t, "RequireNoActionsInExecution");
			if (name.empty() || net.trans.count(name))
				m.no();
			if (noAct == "")
				m.mayRefuse = true;
			else if (noAct != "true" && noAct != "false")
				m.no();
			r.noAct = noAct == "true";
			if (auto *cs = t.kid("ActivationConditions"))
				for (auto &c : cs->kids)
				{
					string n = attr(c, "name");
					if (CONDS.count(n))
						r.conds.push_back({ n, CONDS.at(n) });
					else
						m.no();
					if (c.name != "ActivationCondition")
						m.mayRefuse = true;
				}
			for (auto [list, to] : { std::pair<const char *, vector<RefArc> &>("ActivationPlaces", r.in), std::pair<const char *, vector<RefArc> &>("DestinationPlaces", r.out),
									  std::pair<const char *, vector<RefArc> &>("InhibitorPlaces", r.inh) })
				if (auto *l = t.kid(list))
					for (auto &a : l->kids)
					{
						size_t w = 1;
						string ws = attr(a, "weight");
						if (!ws.empty() && !number(ws, w))
							m.no();
						if (w == 0)
							m.no();
						add(to, attr(a, "name"), w);
						if (a.name + "s" != list)
							m.mayRefuse = true;
					}
			if (t.name != "Transition")
				m.mayRefuse = true;
			net.trans[name] = r;
		}
	if (auto *as = root.kid("Arcs"))
		for (auto &a : as->kids)
		{
			size_t w = 0;
			string p = child(a, "Place"), t = child(a, "Transition"), type = child(a, "Type");
			if (!number(child(a, "Weight"), w))
				m.no();
			if (!net.trans.count(t))
			{
				m.no();
				continue;
			}
			auto &r = net.trans[t];
			if (w == 0 && type != "Activation")
				m.no();
			if (type == "Activation" || type == "Bidirectional")
				add(r.in, p, w);
			if (type == "Destination" || type == "Bidirectional")
				add(r.out, p, w);
			if (type == "Inhibitor")
				add(r.inh, p, w);
			if (type != "Activation" && type != "Bidirectional" && type != "Destination" && type != "Inhibitor")
				m.no();
			if (a.name != "Arc")
				m.mayRefuse = true;
		}
	return m;
}

// Imports the document and compares.
static string excerpt(const string &doc) { return doc.size() > 3000 ? doc.substr(0, 3000) + "..." : doc; }
static void check(const string &doc, const Meaning &m, const string &what)
{
	writeFile(scratch("doc"), doc);
	Probe pr;
	Eng e(Mode::JOB_QUEUE);
	for (auto &[n, id] : { std::pair<const char *, int>("f", 1), std::pair<const char *, int>("g", 2) })
		e.registerAction(n, pr.act(id));
	for (auto &[n, id] : { std::pair<const char *, int>("c", 3), std::pair<const char *, int>("d", 4) })
		e.registerCondition(n, pr.cond(id));
	auto im = FileImporterFactory::createXMLFileImporter();
	int r = throws([&] { im->_import(scratch("doc"), e); });
	MC_CHECK(r < 3, "%s: threw something that is no std::exception", what.c_str());
	if (r)
	{
		MC_CHECK(m.refuse || m.mayRefuse, "%s: refused:\n%s", what.c_str(), excerpt(doc).c_str());
		return;
	}
	string got = snapshot(e, &pr);
	MC_CHECK(!m.refuse, "%s: accepted:\n%sas\n%s", what.c_str(), excerpt(doc).c_str(), got.c_str());
	string want = snapshot(m.net, true);
	MC_CHECK(got == want && e.getActionsThreadOption() == m.mode, "%s: imported in mode %s as\n%sinstead of\n%s", what.c_str(), modeName(e.getActionsThreadOption()), got.c_str(), want.c_str());
	MC_CHECK(!e.isEventLoopRunning(), "running after an import");
	mc::state(std::hash<string>{}(got));
}
static void check(const Node &root, const string &what)
{
	Meaning m = meaning(root);
	check("<?xml version=\"1.0\"?>\n" + write(root), m, what);
}

// ---- every single change --------------------------------------------------------------------------------------------
static vector<string> values()
{
	return { "", " ", "0", "1", "2", "3", "007", "-1", "-0", "+1", "1.5", "1.", "1e3", "0x10", " 1", "1 ", "1a", "a1", "1,000", "1 2", "18446744073709551615", "18446744073709551616",
			 "18446744073709551617", "36893488147419103233", "99999999999999999999999999", "2147483648", "4294967296", "4294967297", "9223372036854775808", "-18446744073709551615",
			 "true", "false", "TRUE", "True", "tru", "truex", " true", "true ", "yes", "no", "1true", "falsetrue", "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE", "event_loop",
			 "EVENT_LOOPS", "EVENT_LOO", " EVENT_LOOP", "SINGLE", "SINGLE_THREAD,EVENT_LOOP", "Activation", "Destination", "Bidirectional", "Inhibitor", "activation", "Activatio",
			 "Activations", "Reset", "INHIBITOR", "p", "q", "r", "s", "P", "p ", "t", "u", "v", "f", "g", "h", "F", "c", "d", "e", "f ", "\t", "\n", "null", "&", "\xff" };
}
static const int NVALUES = 83;
// All nodes, in order, with what leads to them.
static void nodes(Node &n, vector<Node *> &v)
{
	v.push_back(&n);
	for (auto &k : n.kids)
		nodes(k, v);
}
static const int ATTRS = 50, NODES = 60; // at least as many as there are

MC_SCENARIO(unchanged, { .p = 0, .pThorough = 0 })
{
	int k = mc::config(2);
	MC_CHECK((int)values().size() == NVALUES, "harness: %d values", (int)values().size());
	Node d = document(k);
	Meaning m = meaning(d);
	MC_CHECK(!m.refuse && !m.mayRefuse && m.net.places.size() == 3 && m.net.trans.size() == 2, "harness: document");
	vector<Node *> v;
	nodes(d, v);
	int a = 0;
	for (auto *n : v)
		a += (int)n->attrs.size();
	MC_CHECK((int)v.size() <= NODES && a <= ATTRS, "harness: %d nodes, %d attributes", (int)v.size(), a);
	check(d, "the document");
}
// Every attribute with every value, absent, or under another name.
static bool changeAttr(Node &d, int a, int v, string &what)
{
	vector<Node *> ns;
	nodes(d, ns);
	for (auto *n : ns)
	{
		if (a < (int)n->attrs.size())
		{
			auto &x = n->attrs[a];
			what += n->name + "." + x.first + " ";
			if (v < NVALUES)
				x.second = values()[v], what += "set to \"" + x.second + "\"";
			else if (v == NVALUES)
				n->attrs.erase(n->attrs.begin() + a), what += "removed";
			else
				x.first = "x" + x.first, what += "renamed";
			return true;
		}
		a -= (int)n->attrs.size();
	}
	return false;
}
MC_SCENARIO(attributes, { .p = 0, .pThorough = 0, .shards = 8 })
{
	int c = mc::config(ATTRS * 2);
	for (int v = 0; v < NVALUES + 2; ++v)
	{
		Node d = document(c % 2);
		string what;
		if (!changeAttr(d, c / 2, v, what))
			return;
		check(d, what);
	}
}
// Two attributes changed (every pair of attributes, a few values).
MC_SCENARIO(attribute_pairs, { .p = 0, .pThorough = 0, .shards = 16, .thoroughOnly = true })
{
	int c = mc::config(ATTRS * ATTRS * 2);
	int a = c / 2 % ATTRS, b = c / 2 / ATTRS;
	if (a >= b)
		return;
	for (int v = 0; v < NVALUES + 1; v += 3)
		for (int w = 0; w < NVALUES + 1; w += 3)
		{
			Node d = document(c % 2);
			string what;
			if (!changeAttr(d, b, w, what) || !changeAttr(d, a, (v * 5 + w) % (NVALUES + 1), what))
				return;
			check(d, what);
		}
}
// Every element removed, repeated, renamed, emptied, moved to the end, or exchanged with another.
static bool at(Node &n, int &i, const std::function<void(Node &parent, size_t k)> &f)
{
	for (size_t k = 0; k < n.kids.size(); ++k)
	{
		if (i-- == 0)
		{
			f(n, k);
			return true;
		}
		if (at(n.kids[k], i, f))
			return true;
	}
	return false;
}
static bool single(const string &n) { return n != "Place" && n != "Transition" && n != "Arc" && n != "ActivationCondition" && n != "ActivationPlace" && n != "DestinationPlace" && n != "InhibitorPlace"; }
MC_SCENARIO(elements, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(NODES * 2);
	for (int op = 0; op < 6; ++op)
	{
		Node d = document(c % 2);
		const Node orig = d;
		int i = c / 2;
		string what;
		bool either = false; // the order of things or a repetition of what can only be there once
		bool ok = at(d, i, [&](Node &p, size_t k)
					 {
						 Node x = p.kids[k];
						 what = x.name + " in " + p.name;
						 const bool once = single(x.name) || x.attr("value");
						 switch (op)
						 {
						 case 0: p.kids.erase(p.kids.begin() + k); what += " removed"; either = x.name == "Arcs" || x.name == "ActivationConditions"; break;
						 case 1: p.kids.insert(p.kids.begin() + k, x); what += " repeated"; either = once || x.name == "ActivationCondition"; break;
						 case 2: p.kids[k].name = "X"; what += " renamed"; either = true; break;
						 case 3: p.kids[k].kids.clear(); what += " emptied"; either = x.name == "ActivationConditions"; break;
						 case 4: p.kids.erase(p.kids.begin() + k); p.kids.push_back(x); what += " moved"; break;
						 case 5: p.kids[k].name += "s"; what += " renamed"; either = true; break;
						 } });
		if (!ok)
			return;
		Meaning m = meaning(d);
		m.mayRefuse |= either;
		check("<?xml version=\"1.0\"?>\n" + write(d), m, what);
	}
}

// Every truncation, and every removal of a character that delimits something.
static Meaning refused()
{
	Meaning m;
	m.refuse = true;
	return m;
}
MC_SCENARIO(truncated, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(64);
	string s = "<?xml version=\"1.0\"?>\n" + write(document(c % 2));
	size_t end = s.rfind('>') + 1;
	for (size_t n = c / 2; n < end; n += 32)
		check(s.substr(0, n), refused(), "truncated after " + std::to_string(n) + " characters");
}
MC_SCENARIO(delimiters, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(64);
	const string decl = "<?xml version=\"1.0\"?>\n";
	Node d = document(c % 2);
	string s = write(d);
	for (size_t n = c / 2; n < s.size(); n += 32)
	{
		if (string("<>\"=").find(s[n]) == string::npos)
			continue;
		Meaning m = refused();
		if (s[n] == '<' && s[n + 1] != '/' && s[s.find('>', n) - 1] == '/')
		{
			// still well formed: text in place of the element
			int i = -1;
			for (size_t k = 0; k < n; ++k)
				i += s[k] == '<' && s[k + 1] != '/';
			Node without = d;
			at(without, i, [&](Node &p, size_t k) { p.kids.erase(p.kids.begin() + k); });
			m = meaning(without);
			m.mayRefuse = true;
		}
		check(decl + s.substr(0, n) + s.substr(n + 1), m, "character " + std::to_string(n) + " missing");
	}
	// closing tags that do not match
	for (size_t p = 0, k = 0; (p = s.find("</", p)) != string::npos; ++p, ++k)
		if (k % 32 == (size_t)c / 2)
			check(decl + s.substr(0, p + 2) + "X" + s.substr(p + 2), refused(), "closing tag " + std::to_string(k) + " does not match");
}
// What cannot be a document.
MC_SCENARIO(unreadable, { .p = 0, .pThorough = 0 })
{
	const vector<string> docs{ "", " ", "\n\n", "garbage", "<", "<>", "<PTN-Engine", "<PTN-Engine>", "<PTN-Engine/>", "<PTN-Engine></PTN-Engine>", "<x/>", "</PTN-Engine>", "<?xml version=\"1.0\"?>",
							   "<?xml version=\"1.0\"?><!-- -->", string(1000, '<'), string("\0\0\0\0", 4), string("\x7f" "ELF\2\1\1\0\0\0", 10), "{\"PTN-Engine\": {}}",
							   "<ptn-engine actionsThreadOption=\"EVENT_LOOP\"/>", "<X><PTN-Engine actionsThreadOption=\"EVENT_LOOP\"/></X>", "<PTN-Engine actionsThreadOption=EVENT_LOOP/>",
							   "<PTN-Engine mode=\"EVENT_LOOP\"/>" };
	int c = mc::config((int)docs.size() + 4);
	if (c < (int)docs.size())
	{
		check(docs[c], refused(), "document " + std::to_string(c));
		return;
	}
	string path = vector<string>{ scratch("does not exist"), scratch("no/directory"), scratch("."), "" }[c - docs.size()];
	Eng e;
	auto im = FileImporterFactory::createXMLFileImporter();
	int r = throws([&] { im->_import(path, e); });
	MC_CHECK(r == 1 || r == 2, "imported \"%s\"", path.c_str());
	MC_CHECK(e.getPlacesProperties().empty() && e.getTransitionsProperties().empty(), "imported something from \"%s\"", path.c_str());
}
// The importer used again after a refusal, and into an engine that has the names already.
MC_SCENARIO(after_refusal, { .p = 0, .pThorough = 0 })
{
	int c = mc::config(4);
	auto im = FileImporterFactory::createXMLFileImporter();
	Node d = document(0);
	for (auto *k : { "good", "bad" })
		writeFile(scratch(k), "<?xml version=\"1.0\"?>\n" + write(d).substr(0, *k == 'g' ? string::npos : 400));
	Probe pr;
	auto prepare = [&](Eng &e)
	{
		e.registerAction("f", pr.act(1));
		e.registerAction("g", pr.act(2));
		e.registerCondition("c", pr.cond(3));
		e.registerCondition("d", pr.cond(4));
	};
	Eng e, f;
	prepare(e);
	prepare(f);
	if (c & 1)
		MC_CHECK(throws([&] { im->_import(scratch("bad"), e); }) != 0, "a truncated document accepted");
	if (c & 2)
		MC_CHECK(throws([&] { im->_import(scratch("nothing"), e); }) != 0, "no document accepted");
	MC_CHECK(snapshot(e).empty(), "a document that is not well formed has changed the engine:\n%s", snapshot(e).c_str());
	im->_import(scratch("good"), f);
	MC_CHECK(snapshot(f, &pr) == snapshot(meaning(d).net, true), "imported as\n%s", snapshot(f, &pr).c_str());
	// the names are taken now
	MC_CHECK(throws([&] { im->_import(scratch("good"), f); }) == 1, "repeated names accepted");
	// functions missing
	Eng g;
	MC_CHECK(throws([&] { im->_import(scratch("good"), g); }) == 1, "unknown functions accepted");
}

// Exporting where nothing can be written.
MC_SCENARIO(unwritable, { .p = 0, .pThorough = 0 })
{
	const vector<string> bad{ scratch("no/such/directory"), scratch("."), "", scratch("file/inside"), "/dev/full", string(5000, 'x') };
	int c = mc::config((int)bad.size());
	int size = mc::choose(3); // small, or larger than any buffer
	writeFile(scratch("file"), "x");
	Eng e;
	::place(e, { "p", 1 });
	for (int i = 0; i < size * 400; ++i)
		::place(e, { "p" + std::to_string(i) + string(size * 50, 'x'), 1 });
	auto x = FileExporterFactory::createXMLFileExporter();
	int r = throws([&] { x->_export(e, bad[c]); });
	MC_CHECK(r == 1 || r == 2, "exported to \"%.100s\" (%d places)", bad[c].c_str(), size * 400 + 1);
	MC_CHECK(tok(e, "p") == 1 && !e.isEventLoopRunning(), "the engine has changed");
	x->_export(e, scratch("good"));
	Eng f;
	FileImporterFactory::createXMLFileImporter()->_import(scratch("good"), f);
	MC_CHECK((int)f.getPlacesProperties().size() == size * 400 + 1, "exported after a failure");
}
