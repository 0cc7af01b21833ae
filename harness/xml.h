// Files for the import and export harnesses: everything stays inside the scratch directory the check created.
#pragma once
#include "common.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <cstdio>
#include <cstdlib>

inline string scratch(const string &name)
{
	const char *d = getenv("MC_SCRATCH");
	return string(d ? d : "/tmp") + "/" + name;
}
inline void writeFile(const string &path, const string &text)
{
	mc::Outside o;
	FILE *f = fopen(path.c_str(), "wb");
	if (!f)
		mc::fail("harness: cannot write %s", path.c_str());
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
}
inline string readFile(const string &path)
{
	FILE *f = fopen(path.c_str(), "rb");
	if (!f)
		return "(no file)";
	string s;
	char buf[4096];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0)
		s.append(buf, n);
	fclose(f);
	return s;
}
inline string escape(const string &s)
{
	string r;
	for (char c : s)
		switch (c)
		{
		case '&': r += "&amp;"; break;
		case '<': r += "&lt;"; break;
		case '>': r += "&gt;"; break;
		case '"': r += "&quot;"; break;
		case '\t': r += "&#9;"; break;
		case '\n': r += "&#10;"; break;
		case '\r': r += "&#13;"; break;
		default: r += c;
		}
	return r;
}
