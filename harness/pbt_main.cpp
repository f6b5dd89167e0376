#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <algorithm>

namespace pbt {

Shared * sh = nullptr;
bool tracing = false;
thread_local bool quiet = false;
int (*instead_of_main)() = nullptr;
static bool case_nontrivial = false;
// Usable before main begins and after it ends
static std::map<std::string, uint64_t> & all_labels() { static auto & l = *new std::map<std::string, uint64_t>; return l; }
static const char * KIND[] = {"none", "oracle", "crash", "hang"};

static Shared * make_shared_block()
{
	void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shared*)p;
}

void fail(const char * fmt, ...)
{
	va_list a; va_start(a, fmt); vsnprintf(sh->message, sizeof sh->message, fmt, a); va_end(a);
	sh->failed = 1;
	if (tracing) fprintf(stderr, "FAIL: %s\n", sh->message);
#ifdef PBT_LIBFUZZER
	fprintf(stderr, "FAIL: %s\n", sh->message); abort();
#endif
	_exit(77);
}
void note(const char * fmt, ...)
{
	if (!tracing || quiet) return;
	if (sh->text_len + 2 >= MAX_TEXT) return;
	size_t room = MAX_TEXT - sh->text_len - 2;
	va_list a; va_start(a, fmt); int n = vsnprintf(sh->text + sh->text_len, room, fmt, a); va_end(a);
	if (n < 0) return;
	sh->text_len += (size_t)n < room ? n : room - 1;
	sh->text[sh->text_len++] = '\n'; sh->text[sh->text_len] = 0;
}
void label(const char * name, uint64_t n) { if (!quiet) all_labels()[name] += n; }
void nontrivial() { if (!quiet) case_nontrivial = true; }
std::string show(const std::string & s)
{
	std::string o = "\""; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c >= 32 && c < 127) o += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
	return o + "\"";
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull + (a << 6)); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t case_seed(uint64_t seed, unsigned suite, uint64_t idx) { return mix(mix(seed + 1, suite + 1), idx + 1); }

static void cpu_limit(double sec)
{
	struct rlimit r; r.rlim_cur = (rlim_t)(sec + 0.999); r.rlim_max = r.rlim_cur + 2; setrlimit(RLIMIT_CPU, &r);
}

static int run_in_child(const std::vector<uint32_t> & choices, unsigned suite, double cpu, bool trace, std::string & msg, const char * logfile, std::vector<uint32_t> * consumed = nullptr)
{
	sh->failed = 0; sh->message[0] = 0; sh->text_len = 0; sh->text[0] = 0; sh->num_choices = 0;
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(2); }
	if (p == 0)
	{
		cpu_limit(cpu);
		struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
		int fd = open(logfile ? logfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
		tracing = trace;
		{ Src s(choices.data(), choices.size()); SUITES[suite].fn(s); }
		_exit(0);
	}
	// CPU limit handles spinning; blocked children are given up by wall clock
	double t0 = now(); int st = 0; bool killed = false;
	for (;;)
	{
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) break;
		if (r < 0) { if (errno == EINTR) continue; perror("waitpid"); exit(2); }
		if (now() - t0 > cpu * 12 + 60) { kill(p, SIGKILL); killed = true; waitpid(p, &st, 0); break; }
		usleep(now() - t0 < 0.05 ? 200 : 2000);
	}
	if (consumed) consumed->assign(sh->choices, sh->choices + sh->num_choices);
	msg.clear();
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL)))) { msg = "does not finish (or exhausts memory)"; return 3; }
	if (sh->failed) { msg = sh->message; return 1; }
	char b[64];
	if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "abnormal exit %d (sanitizer report)", WEXITSTATUS(st));
	msg = b; return 2;
}

static std::string json(const std::string & s)
{
	std::string o = "\""; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c >= 32 && c < 127) o += (char)c; else { snprintf(b, sizeof b, "\\u%04x", c); o += b; } }
	return o + "\"";
}

static std::vector<uint32_t> shrink(std::vector<uint32_t> best, unsigned suite, double cpu, int kind, double budget)
{
	double t0 = now(); std::string m; unsigned runs = 0;
	std::vector<uint32_t> cons;
	auto try_it = [&](std::vector<uint32_t> c) {
		if (now() - t0 > budget || runs > 4000) return false;
		++runs;
		int r = run_in_child(c, suite, cpu, false, m, nullptr, &cons);
		if (r != kind) return false;
		if (cons.size() <= c.size()) best = cons; else best = c;   // drop unused tail, normalise
		return true;
	};
	bool progress = true;
	while (progress && now() - t0 < budget)
	{
		progress = false;
		while (!best.empty() && best.back() == 0) best.pop_back();
		for (size_t k = best.size() / 2 + 1; k >= 1; k = k / 2)
		{
			for (size_t i = 0; i + k <= best.size();)
			{
				if (now() - t0 > budget) break;
				std::vector<uint32_t> c = best; c.erase(c.begin() + i, c.begin() + i + k);
				if (try_it(c)) progress = true; else i += (k > 4 ? k / 2 : 1);
			}
			if (k == 1) break;
		}
		for (size_t k : {16, 4, 1}) for (size_t i = 0; i + k <= best.size(); ++i)
		{
			bool any = false; for (size_t j = i; j < i + k; ++j) any |= best[j] != 0;
			if (!any) continue;
			std::vector<uint32_t> c = best; std::fill(c.begin() + i, c.begin() + i + k, 0u);
			if (try_it(c)) progress = true;
		}
		for (size_t i = 0; i < best.size(); ++i)
		{
			uint32_t lo = 0;
			while (i < best.size() && best[i] > lo + 1)
			{
				uint32_t mid = lo + (best[i] - lo) / 2; std::vector<uint32_t> c = best; c[i] = mid;
				size_t n = best.size();
				if (try_it(c)) { progress = true; if (best.size() != n || i >= best.size() || best[i] > mid) break; } else lo = mid;
				if (now() - t0 > budget) break;
			}
			if (i < best.size() && best[i] > 0) { std::vector<uint32_t> c = best; c[i]--; if (try_it(c)) progress = true; }
		}
	}
	return best;
}

static std::string dir;        // output directory for replays
static double CASE_CPU = 20;

// A case whose outcome depends on the schedule is repeated
static int run_repeated(const std::vector<uint32_t> & choices, unsigned suite, bool trace, std::string & msg, const char * logfile, int times)
{
	int k = 0; for (int i = 0; i < times && !k; ++i) k = run_in_child(choices, suite, CASE_CPU, trace, msg, logfile);
	return k;
}
static int report_schedule(unsigned suite, const std::vector<uint32_t> & choices, int kind, const std::string & how, const std::string & witnessed)
{
	std::string msg, base = dir + "/" + PROPERTY + "-" + SUITES[suite].name, path = base + ".replay";
	int k = run_repeated(choices, suite, true, msg, (base + ".log").c_str(), 100);
	if (!k && witnessed.empty()) return 0;
	FILE * f = fopen(path.c_str(), "w");
	if (f)
	{
		fprintf(f, "property %s\nsuite %s\nkind %s\nfound %s (schedule-dependent%s)\nmessage %s\nchoices", PROPERTY, SUITES[suite].name, KIND[kind], how.c_str(), k ? ", seen again when repeated" : ", not seen again in 100 repetitions", k ? msg.c_str() : witnessed.c_str());
		for (uint32_t c : choices) fprintf(f, " %u", c);
		fprintf(f, "\n---- history\n%s", sh->text); fclose(f);
	}
	fprintf(stderr, "[%s/%s] %s: %s\n%s", PROPERTY, SUITES[suite].name, KIND[kind], k ? msg.c_str() : witnessed.c_str(), sh->text);
	printf("VIOLATION property=%s replay=%s\n", PROPERTY, path.c_str()); fflush(stdout);
	return 1;
}

static int report(unsigned suite, std::vector<uint32_t> choices, int kind, const std::string & how, bool do_shrink)
{
	std::string msg;
	if (do_shrink) choices = shrink(choices, suite, kind == 3 ? 2 : CASE_CPU, kind, kind == 3 ? 60 : 40);
	std::string base = dir + "/" + PROPERTY + "-" + SUITES[suite].name;
	int fails = 0;
	for (int i = 0; i < 3; ++i) if (run_in_child(choices, suite, CASE_CPU, i == 2, msg, (base + ".log").c_str())) ++fails;
	if (fails < 3) return 0;
	std::string path = base + ".replay";
	FILE * f = fopen(path.c_str(), "w");
	if (f)
	{
		fprintf(f, "property %s\nsuite %s\nkind %s\nfound %s\nmessage %s\nchoices", PROPERTY, SUITES[suite].name, KIND[kind], how.c_str(), msg.c_str());
		for (uint32_t c : choices) fprintf(f, " %u", c);
		fprintf(f, "\n---- history\n%s", sh->text);
		fprintf(f, "---- sanitizer log: %s.log\n", base.c_str());
		fclose(f);
	}
	fprintf(stderr, "[%s/%s] %s: %s\n%s", PROPERTY, SUITES[suite].name, KIND[kind], msg.c_str(), sh->text);
	if (FILE * l = fopen((base + ".log").c_str(), "r")) { char b[300]; int n = 0; while (n < 14 && fgets(b, sizeof b, l)) { fputs(b, stderr); ++n; } fclose(l); }
	printf("VIOLATION property=%s replay=%s\n", PROPERTY, path.c_str()); fflush(stdout);
	return 1;
}

} // namespace pbt
using namespace pbt;

#ifdef PBT_LIBFUZZER
// Coverage-guided driver: bytes are the choices (two bytes each, little endian);
// the first byte picks the suite.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * d, size_t n)
{
	if (!sh) sh = make_shared_block();
	if (n < 1) return 0;
	unsigned suite = d[0] % SUITES.size();
	std::vector<uint32_t> c; for (size_t i = 1; i + 1 < n; i += 2) c.push_back(d[i] | d[i + 1] << 8);
	Src s(c.data(), c.size()); SUITES[suite].fn(s);
	return 0;
}
#else
struct WorkerOut { std::vector<uint64_t> hashes; };

int main(int argc, char ** argv)
{
	if (pbt::instead_of_main) return pbt::instead_of_main();
	std::string mode = "run", replay, tier = "quick", evidence, only; uint64_t seed = 1; unsigned jobs = 8; double scale = 1, maxwall = 600;
	dir = ".";
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed") seed = strtoull(val(), 0, 10); else if (a == "--tier") tier = val(); else if (a == "--evidence") evidence = val();
		else if (a == "--dir") dir = val(); else if (a == "--jobs") jobs = atoi(val()); else if (a == "--scale") scale = atof(val());
		else if (a == "--replay") { mode = "replay"; replay = val(); } else if (a == "--bytes") { mode = "bytes"; replay = val(); }
		else if (a == "--suite") only = val(); else if (a == "--maxwall") maxwall = atof(val()); else if (a == "--cpu") CASE_CPU = atof(val());
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	sh = make_shared_block();
	if (mode == "replay")
	{
		FILE * f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
		std::string suite; std::vector<uint32_t> c; static char line[1 << 20];
		while (fgets(line, sizeof line, f))
		{
			if (!strncmp(line, "suite ", 6)) { suite = line + 6; suite.erase(suite.find_last_not_of("\r\n") + 1); }
			if (!strncmp(line, "choices", 7)) { char * p = line + 7, * e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; c.push_back(v); p = e; } break; }
		}
		fclose(f);
		for (unsigned s = 0; s < SUITES.size(); ++s) if (suite == SUITES[s].name)
		{
			std::string msg; int k = run_repeated(c, s, true, msg, "/dev/stderr", SUITES[s].schedule ? 100 : 1);
			printf("%s\nresult: %s %s\n", sh->text, KIND[k], msg.c_str()); return k ? 1 : 0;
		}
		fprintf(stderr, "no such suite %s\n", suite.c_str()); return 2;
	}
	if (mode == "bytes")
	{
		// An artifact of the coverage-guided driver: confirm, shrink, report
		FILE * f = fopen(replay.c_str(), "rb"); if (!f) { perror("bytes"); return 2; }
		std::vector<uint8_t> d(1 << 20); d.resize(fread(d.data(), 1, d.size(), f)); fclose(f);
		if (d.empty()) return 0;
		unsigned s = d[0] % SUITES.size(); std::vector<uint32_t> c; for (size_t i = 1; i + 1 < d.size(); i += 2) c.push_back(d[i] | d[i + 1] << 8);
		std::string msg; int k = run_in_child(c, s, CASE_CPU, false, msg, nullptr);
		if (!k) return 0;
		return report(s, c, k, "coverage-guided", true);
	}

	double t0 = now(); uint64_t total = 0;
	std::vector<uint64_t> counts;
	for (auto & s : SUITES) { uint64_t n = (uint64_t)((tier == "thorough" ? s.thorough : s.quick) * scale); if (n < 1) n = 1; if (!only.empty() && only != s.name) n = 0; counts.push_back(n); total += n; }
	std::vector<Shared*> blocks; std::vector<pid_t> pids; std::vector<std::string> outs; std::vector<uint64_t> prog(jobs, 0); std::vector<double> cpu0(jobs, 0);
	for (unsigned w = 0; w < jobs; ++w) { blocks.push_back(make_shared_block()); outs.push_back(dir + "/worker-" + std::to_string(w) + ".out"); }
	fflush(stdout); fflush(stderr);
	for (unsigned w = 0; w < jobs; ++w)
	{
		pid_t p = fork();
		if (p < 0) { perror("fork"); return 2; }
		if (p == 0)
		{
			sh = blocks[w];
			struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
			int fd = open((dir + "/worker-" + std::to_string(w) + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
			std::unordered_set<uint64_t> seen;
			bool out_of_time = false;
			for (unsigned s = 0; s < SUITES.size() && !out_of_time; ++s) for (uint64_t i = w; i < counts[s]; i += jobs)
			{
				if ((i / jobs) % 64 == 0 && now() - t0 > maxwall) { out_of_time = true; break; }
				sh->suite = s; sh->current = i; sh->progress = sh->progress + 1; sh->text_len = 0;
				case_nontrivial = false;
				Src src(case_seed(seed, s, i));
				SUITES[s].fn(src);
				sh->evaluations = sh->evaluations + 1;
				if (case_nontrivial) { sh->nontrivial = sh->nontrivial + 1; seen.insert(mix(src.hash, s)); }
			}
			// Destroying what the harness holds and checking leaks is up to the cases
			FILE * f = fopen(outs[w].c_str(), "w");
			if (!f) _exit(3);
			fprintf(f, "%zu\n", all_labels().size()); for (auto & l : all_labels()) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
			fprintf(f, "%zu\n", seen.size()); for (uint64_t h : seen) fprintf(f, "%llx\n", (unsigned long long)h);
			fclose(f);
			sh->done = 1 + out_of_time;
			_exit(0);
		}
		pids.push_back(p);
	}
	// Watch
	unsigned live = jobs; int failed_worker = -1; int fkind = 0; bool trunc = false;
	std::vector<double> since(jobs, now());
	auto cpu_of = [](pid_t p) { char b[64]; snprintf(b, sizeof b, "/proc/%d/stat", p); FILE * f = fopen(b, "r"); if (!f) return 0.0; static char line[2048]; size_t n = fread(line, 1, sizeof line - 1, f); fclose(f); line[n] = 0; char * q = strrchr(line, ')'); if (!q) return 0.0; unsigned long u = 0, k = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &k); return (double)(u + k) / sysconf(_SC_CLK_TCK); };
	while (live && failed_worker < 0)
	{
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0)
		{
			for (unsigned w = 0; w < jobs; ++w) if (pids[w] == p)
			{
				--live; pids[w] = 0;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && blocks[w]->done)) { failed_worker = w; fkind = blocks[w]->failed ? 1 : 2; }
				else if (blocks[w]->done == 2) trunc = true;
			}
			continue;
		}
		usleep(20000);
		for (unsigned w = 0; w < jobs; ++w) if (pids[w])
		{
			if (blocks[w]->progress != prog[w]) { prog[w] = blocks[w]->progress; since[w] = now(); cpu0[w] = cpu_of(pids[w]); }
			else if (now() - since[w] > CASE_CPU && (cpu_of(pids[w]) - cpu0[w] > CASE_CPU || now() - since[w] > CASE_CPU * 10)) { failed_worker = w; fkind = 3; break; }
		}
	}
	for (unsigned w = 0; w < jobs; ++w) if (pids[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }

	int rc = 0; unsigned violations = 0;
	if (failed_worker >= 0)
	{
		Shared * b = blocks[failed_worker]; unsigned s = b->suite; uint64_t idx = b->current;
		std::vector<uint32_t> c(b->choices, b->choices + b->num_choices);
		char how[128]; snprintf(how, sizeof how, "seed %llu suite %s case %llu", (unsigned long long)seed, SUITES[s].name, (unsigned long long)idx);
		std::string witnessed = fkind == 1 ? b->message : "";
		std::string msg; int k = run_in_child(c, s, CASE_CPU, false, msg, nullptr);
		if (SUITES[s].schedule && report_schedule(s, c, fkind, how, witnessed)) { rc = 1; violations = 1; }
		else if (k && report(s, c, k, how, true)) { rc = 1; violations = 1; }
		else
		{
			// Not reproducible on its own: state carried over from earlier cases of this worker, or a schedule.
			// Re-run the same worker's history from its start, 3 times.
			int fails = 0; std::string path = dir + "/" + PROPERTY + "-" + SUITES[s].name + "-history.replay";
			for (int t = 0; t < 3; ++t)
			{
				sh->failed = 0;
				pid_t p = fork();
				if (p == 0)
				{
					struct rlimit rcore = {0, 0}; setrlimit(RLIMIT_CORE, &rcore);
					int fd = open((path + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
					for (unsigned q = 0; q <= s; ++q) for (uint64_t i = failed_worker; i < counts[q] && !(q == s && i > idx); i += jobs) { Src src(case_seed(seed, q, i)); SUITES[q].fn(src); }
					_exit(0);
				}
				int st = 0; double w0 = now(); bool done = false;
				while (!done) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) done = true; else if (now() - w0 > maxwall / 2 + 60) { kill(p, SIGKILL); waitpid(p, &st, 0); done = true; } else usleep(5000); }
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ++fails; else break;
			}
			if (fails == 3)
			{
				FILE * f = fopen(path.c_str(), "w");
				if (f) { fprintf(f, "property %s\nsuite %s\nhistory: worker %d of %u, %s (fails only after the worker's earlier cases)\nmessage %s\n", PROPERTY, SUITES[s].name, failed_worker, jobs, how, b->message); fclose(f); }
				fprintf(stderr, "history-dependent failure: %s: %s\n", how, b->message);
				printf("VIOLATION property=%s replay=%s\n", PROPERTY, path.c_str()); rc = 1; violations = 1;
			}
			else fprintf(stderr, "[%s] unreproducible failure (%s, %s, kind %s): reported as inconclusive, not as a violation\n", PROPERTY, how, b->message, KIND[fkind]);
		}
	}

	// Evidence
	uint64_t evals = 0, nt = 0; std::map<std::string, uint64_t> lab; std::unordered_set<uint64_t> all;
	for (unsigned w = 0; w < jobs; ++w)
	{
		evals += blocks[w]->evaluations; nt += blocks[w]->nontrivial;
		FILE * f = fopen(outs[w].c_str(), "r"); if (!f) continue;
		size_t n = 0; unsigned long long v; char nm[256];
		if (fscanf(f, "%zu", &n) == 1) for (size_t i = 0; i < n; ++i) if (fscanf(f, "%llu %255[^\n]", &v, nm) == 2) lab[nm] += v;
		if (fscanf(f, "%zu", &n) == 1) for (size_t i = 0; i < n; ++i) if (fscanf(f, "%llx", &v) == 1) all.insert(v);
		fclose(f); unlink(outs[w].c_str());
	}
	std::string samples;
	if (!rc) for (unsigned s = 0; s < SUITES.size(); ++s)
	{
		if (!counts[s]) continue;
		// two traced re-runs of cases of this very run
		for (uint64_t i : {counts[s] / 3, counts[s] - 1})
		{
			pid_t p = fork(); sh->text_len = 0; sh->text[0] = 0;
			if (p == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); tracing = true; Src src(case_seed(seed, s, i)); SUITES[s].fn(src); _exit(0); }
			waitpid(p, nullptr, 0);
			std::string t = sh->text; if (t.size() > 900) t = t.substr(0, 900) + "...";
			if (!samples.empty()) samples += ",\n    ";
			samples += json(std::string(SUITES[s].name) + " case " + std::to_string(i) + ": " + t);
		}
	}
	if (samples.empty()) samples = json("see replay file");
	if (!evidence.empty())
	{
		FILE * f = fopen(evidence.c_str(), "w"); if (!f) { perror("evidence"); return 2; }
		fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": %llu,\n  \"nontrivial\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"truncated_by_time\": %s,\n  \"rule\": %s,\n  \"suites\": {", PROPERTY, tier.c_str(), (unsigned long long)seed, (unsigned long long)evals, (unsigned long long)nt, all.size(), trunc ? "true" : "false", json(RULE).c_str());
		for (unsigned s = 0; s < SUITES.size(); ++s) fprintf(f, "%s%s: {\"cases\": %llu, \"rule\": %s}", s ? ", " : "", json(SUITES[s].name).c_str(), (unsigned long long)counts[s], json(SUITES[s].rule ? SUITES[s].rule : "").c_str());
		fprintf(f, "},\n  \"classes\": {"); bool first = true; for (auto & l : lab) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json(l.first).c_str(), (unsigned long long)l.second); first = false; }
		fprintf(f, "},\n  \"samples\": [%s]\n },\n \"assumptions\": [\"single process per case, x86-64 Linux, g++ debug configuration as built by the repository\"],\n \"wall_s\": %.2f,\n \"violations\": %u}\n", samples.c_str(), now() - t0, violations);
		fclose(f);
	}
	printf("%s %s: %llu cases, %zu distinct non-trivial, %.1f s%s\n", PROPERTY, tier.c_str(), (unsigned long long)evals, all.size(), now() - t0, rc ? ", VIOLATED" : "");
	return rc;
}
#endif
