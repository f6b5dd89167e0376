// Programs written by a harness: a directory of their own, the compiler and flags of the build
#pragma once
#include "pbt.h"
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <glob.h>
using std::string; using std::vector;
struct Dir
{
	string path;
	Dir() { string t = string(PBT_OUT) + "/prog-XXXXXX"; vector<char> b(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) _exit(3); path = b.data(); }
	~Dir() { glob_t g; if (!glob((path + "/*").c_str(), 0, nullptr, &g)) { for (size_t i = 0; i < g.gl_pathc; ++i) unlink(g.gl_pathv[i]); globfree(&g); } rmdir(path.c_str()); }
	void write(const string & name, const string & text) const { FILE * f = fopen((path + "/" + name).c_str(), "w"); if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) _exit(3); }
	string read(const string & name) const { string r; FILE * f = fopen((path + "/" + name).c_str(), "r"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < 200000) r.append(b, n); fclose(f); return r; }
};
inline pid_t start(const Dir & d, vector<string> cmd, const string & log, int cpu)
{
	vector<char*> a; for (auto & c : cmd) a.push_back(&c[0]); a.push_back(nullptr); string l = d.path + "/" + log;
	pid_t p = fork(); if (p < 0) _exit(3);
	if (!p)
	{
		struct rlimit r = {(rlim_t)cpu, (rlim_t)cpu + 1}; setrlimit(RLIMIT_CPU, &r); setenv("LC_ALL", "C", 1);
		int fd = open(l.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) _exit(126); dup2(fd, 1); dup2(fd, 2); int z = open("/dev/null", O_RDONLY); dup2(z, 0);
		if (chdir(d.path.c_str())) _exit(126);
		execvp(a[0], a.data()); _exit(127);
	}
	return p;
}
inline int finish(pid_t p) { int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
inline string firstError(const string & log) { size_t b = 0; string any; while (b < log.size()) { size_t e = log.find('\n', b); if (e == string::npos) e = log.size(); string l = log.substr(b, e - b); b = e + 1; if (l.find("error") != string::npos || l.find("undefined reference") != string::npos || l.find("multiple definition") != string::npos) return l.substr(0, 600); if (any.empty()) any = l; } return any.substr(0, 600); }
inline vector<string> compiler(const char * opt) { vector<string> c = {"g++", "-std=c++17", "-mavx2", "-fno-strict-aliasing", "-DPLATFORM_LINUX=1", "-w", opt}; if (string(PBT_TAG) == "rel") { c.push_back("-DNDEBUG"); c.push_back("-DBUILD_RELEASE"); } else c.push_back("-DBUILD_DEBUG"); c.push_back(string("-I") + PBT_REPO + "/src/korin/core/public"); return c; }
static const char PROBE[] = "#include <vector>\n#include <string>\nint main() { std::vector<std::string> v(3); return v.size() != 3; }\n";
// Out of memory, disk or time: nothing is said about the library
inline bool compilerWorks(const Dir & d) { d.write("probe.cpp", PROBE); vector<string> c = {"g++", "-std=c++17", "probe.cpp", "-o", "probe"}; return finish(start(d, c, "probe.log", 60)) == 0; }
inline void compileFailed(const Dir & d, const string & log, int rc, const char * what)
{
	string l = d.read(log);
	if (rc >= 1000 || rc == 126 || rc == 127 || l.find("No space left") != string::npos || l.find("Killed") != string::npos || l.find("memory exhausted") != string::npos || !compilerWorks(d)) { label("compiler gave up"); return; }
	string e = firstError(l); note("%s", l.substr(0, 3000).c_str()); pbt::fail("%s: %s", what, e.c_str());
}
