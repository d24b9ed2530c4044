// Command line of the simulator: search, minimise, replay.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <sstream>
#include "sim.hpp"

void install_handlers();
std::string fatal_context();

static std::string self;
static std::string fatal_path;
static uint64_t current_index;
static int fatal_fd = -1;
static Stats * live_stats;

void report_fatal(const char * cls, const char * detail) {
	// the process is about to die: leave a note
	char b[512];
	std::string ctx = fatal_context();
	int n = snprintf(b, sizeof b, "%llu %s %s%s\n", static_cast<unsigned long long>(current_index), cls, detail, ctx.c_str());
	int fd = fatal_fd;
	if (fd < 0 && !fatal_path.empty()) fd = open(fatal_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) fd = 2;
	if (write(fd, b, static_cast<size_t>(n)) < 0) { }
}

static std::string json(const std::string & s) {
	std::string o = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c)); o += b; }
		else o += c;
	}
	return o + "\"";
}

// ---------------------------------------------------------------- the library alone, in a fresh process
static SubjectSpec plain_subject(int form, const std::vector<uint32_t> & units) {
	SubjectSpec s;
	s.cls = form_class(form);
	s.units = units;
	s.zt = form == F_ZT || form == F_WZT;
	return s;
}
static int cmd_solo(int argc, char ** argv) {
	if (argc < 5) return 2;
	int pattern = atoi(argv[2]), form = atoi(argv[3]), what = atoi(argv[4]);
	// the code units are in a file that was left open for this process
	std::vector<uint32_t> u;
	if (argc > 5) {
		const int fd = atoi(argv[5]);
		struct stat sb;
		if (fstat(fd, &sb)) return 2;
		u.resize(static_cast<size_t>(sb.st_size) / 4);
		if (pread(fd, u.data(), u.size() * 4, 0) != static_cast<ssize_t>(u.size() * 4)) return 2;
	}
	int t = find_table(pattern, form);
	if (t < 0) return 2;
	Case c;
	c.prop = "solo";
	c.par.oracle = 0;
	c.par.budget = 2000000000;
	c.subjects.push_back(plain_subject(form, u));
	c.clients.resize(1);
	OpSpec o;
	o.table = t; o.subj = 0;
	if (what < 10) { o.code = O_EVAL; o.y = what; c.clients[0].ops.push_back(o); }
	else {
		o.code = O_IT_MAKE; o.y = what - 10; c.clients[0].ops.push_back(o);
		OpSpec w; w.code = O_IT_WALK; c.clients[0].ops.push_back(w);
	}
	std::vector<Exp> dump;
	solo_dump = &dump;
	Stats st;
	RunResult r = run_case(c, st);
	if (r.v.on) return 3;
	printf("%zu\n", dump.size());
	for (auto & e : dump) {
		printf("%d %zu", e.matched, e.caps.size());
		for (auto & k : e.caps) printf(" %d %ld %ld", k.on, k.b, k.e);
		printf("\n");
	}
	return 0;
}
bool solo_process(int pattern, int form, int what, const std::vector<uint32_t> & units, Seq & out) {
	const int fd = memfd_create("units", 0);
	if (fd < 0) return false;
	if (write(fd, units.data(), units.size() * 4) != static_cast<ssize_t>(units.size() * 4)) { close(fd); return false; }
	const std::string cmd = self + " solo " + std::to_string(pattern) + " " + std::to_string(form) + " " + std::to_string(what) + " " + std::to_string(fd);
	fflush(stdout);
	FILE * p = popen((cmd + " 2>/dev/null").c_str(), "r");
	close(fd);
	if (!p) return false;
	out.clear();
	size_t n = 0;
	bool ok = fscanf(p, "%zu", &n) == 1 && n < 100000;
	for (size_t i = 0; ok && i < n; i++) {
		Exp e;
		int m; size_t k;
		ok = fscanf(p, "%d %zu", &m, &k) == 2 && k < 1000;
		e.matched = m;
		for (size_t j = 0; ok && j < k; j++) { Cap c; int on; ok = fscanf(p, "%d %ld %ld", &on, &c.b, &c.e) == 3; c.on = on; e.caps.push_back(c); }
		out.push_back(e);
	}
	return pclose(p) == 0 && ok;
}

// ---------------------------------------------------------------- statistics
static void write_stats(FILE * f, const Stats & s, const std::string & prop, uint64_t seed, double secs, uint64_t probe_hash, const RunResult * v, uint64_t vindex) {
	fprintf(f, "{\"prop\": %s, \"seed\": %llu, \"secs\": %.3f, \"probe_hash\": \"%016llx\"", json(prop).c_str(), static_cast<unsigned long long>(seed), secs, static_cast<unsigned long long>(probe_hash));
#define F(n) fprintf(f, ", \"" #n "\": %llu", static_cast<unsigned long long>(s.n))
	F(runs); F(ops); F(ticks); F(simns); F(idle); F(solos); F(deviations); F(matched); F(steps); F(blocked); F(nontrivial); F(throws); F(allocfail); F(sinkfault); F(terminated);
	F(eofs); F(chunks); F(restarts); F(skipped); F(allocs); F(free_ops); F(statics); F(model_calls); F(max_op_ticks); F(edits); F(edits_refused); F(longest); F(past_end); F(malformed); F(rechecked);
	fprintf(f, ", \"interleavings\": %zu, \"distinct\": %zu", s.interleavings.size(), s.cases.size());
	fprintf(f, ", \"events\": {");
	for (int i = 0; i < EV_N; i++) fprintf(f, "%s\"%s\": %llu, \"%s_inside\": %llu", i ? ", " : "", ev_names[i], static_cast<unsigned long long>(s.ev[i]), ev_names[i], static_cast<unsigned long long>(s.evin[i]));
	fprintf(f, "}, \"opcount\": {");
	bool first = true;
	for (int i = 0; i < O_N; i++) if (s.opcount[i]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", op_names[i], static_cast<unsigned long long>(s.opcount[i])); first = false; }
	fprintf(f, "}, \"forms\": [");
	for (int i = 0; i < F_N; i++) fprintf(f, "%s%llu", i ? ", " : "", static_cast<unsigned long long>(s.formcount[i]));
	fprintf(f, "], \"probes\": [");
	for (int i = 0; i < 16; i++) fprintf(f, "%s%llu", i ? ", " : "", static_cast<unsigned long long>(s.probes[i]));
	fprintf(f, "], \"patterns\": [");
	first = true;
	for (int p : s.patterns) { fprintf(f, "%s%d", first ? "" : ", ", p); first = false; }
	fprintf(f, "]");
	if (v && v->v.on) fprintf(f, ", \"violation\": {\"index\": %llu, \"class\": %s, \"detail\": %s}", static_cast<unsigned long long>(vindex), json(v->v.cls).c_str(), json(v->v.detail).c_str());
	fprintf(f, "}\n");
}

static int cmd_run(int argc, char ** argv) {
	// run PROP SEED FROM TO STRIDE OUT RECHECK
	if (argc < 9) return 2;
	std::string prop = argv[2], out = argv[7];
	uint64_t seed = strtoull(argv[3], nullptr, 10), from = strtoull(argv[4], nullptr, 10), to = strtoull(argv[5], nullptr, 10), stride = strtoull(argv[6], nullptr, 10);
	uint64_t every = strtoull(argv[8], nullptr, 10);
	fatal_path = out + ".fatal";
	unlink(fatal_path.c_str());
	install_handlers();
	Stats st;
	live_stats = &st;
	uint64_t probe = 0, n = 0;
	RunResult bad;
	uint64_t bad_index = 0;
	timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	// a slow machine explores less; which runs are made depends on the seed and the indices alone
	const double limit = getenv("SIM_SECONDS") ? atof(getenv("SIM_SECONDS")) : 1e18;
	for (uint64_t i = from; i < to; i += stride, n++) {
		if (n % 256 == 255) {
			clock_gettime(CLOCK_MONOTONIC, &t1);
			if (static_cast<double>(t1.tv_sec - t0.tv_sec) > limit) break;
		}
		current_index = i;
		Case c;
		gen_case(prop, seed, i, c);
		RunResult r = run_case(c, st);
		if (n < 64) probe = Rng::mix(probe ^ r.hash);
		if (!r.v.on && every && n % every == 0) {
			// the same seed has to give the same run, and so has the recorded schedule
			Stats dummy;
			RunResult again = run_case(c, dummy);
			Case d = c;
			d.replay = true;
			d.events = r.trace;
			RunResult third = run_case(d, dummy);
			st.rechecked++;
			if (again.hash != r.hash || third.hash != r.hash) {
				fprintf(stderr, "NONDETERMINISM index %llu: %016llx %016llx %016llx\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(r.hash), static_cast<unsigned long long>(again.hash), static_cast<unsigned long long>(third.hash));
				return 2;
			}
		}
		if (r.v.on) { bad = r; bad_index = i; break; }
	}
	clock_gettime(CLOCK_MONOTONIC, &t1);
	double secs = static_cast<double>(t1.tv_sec - t0.tv_sec) + 1e-9 * static_cast<double>(t1.tv_nsec - t0.tv_nsec);
	FILE * f = fopen(out.c_str(), "w");
	if (!f) return 2;
	write_stats(f, st, prop, seed, secs, probe, &bad, bad_index);
	fclose(f);
	std::ofstream h(out + ".hashes", std::ios::binary);
	for (uint64_t x : st.cases) h.write(reinterpret_cast<const char *>(&x), 8);
	std::ofstream g(out + ".il", std::ios::binary);
	for (uint64_t x : st.interleavings) g.write(reinterpret_cast<const char *>(&x), 8);
	return bad.v.on ? 1 : 0;
}

// ---------------------------------------------------------------- trying a case in a child process
struct Outcome { bool on = false; std::string cls, detail; uint64_t hash = 0; };
static Outcome attempt(const Case & c) {
	int fd[2];
	if (pipe(fd)) { perror("pipe"); exit(2); }
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(2); }
	if (p == 0) {
		close(fd[0]);
		fatal_fd = fd[1];
		install_handlers();
		Stats st;
		RunResult r = run_case(c, st);
		std::string s = std::to_string(current_index) + " " + (r.v.on ? r.v.cls : std::string("-")) + " " + std::to_string(r.hash) + " " + r.v.detail + "\n";
		if (write(fd[1], s.data(), s.size()) < 0) { }
		_exit(0);
	}
	close(fd[1]);
	std::string got;
	char b[4096];
	ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) got.append(b, static_cast<size_t>(n));
	close(fd[0]);
	int status = 0;
	waitpid(p, &status, 0);
	Outcome o;
	std::istringstream in(got);
	std::string idx;
	if (in >> idx >> o.cls) {
		o.on = o.cls != "-";
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0) in >> o.hash;
		std::getline(in, o.detail);
		if (!o.detail.empty() && o.detail[0] == ' ') o.detail.erase(0, 1);
	} else { o.on = true; o.cls = "crash"; o.detail = "the run died without a word"; }
	return o;
}

static void compact(Case & c) {
	// drop the holes left by removed operations and callers
	for (size_t k = 0; k < c.clients.size(); k++) {
		auto & v = c.clients[k].ops;
		std::vector<int> to(v.size(), -1);
		std::vector<OpSpec> keep;
		for (size_t i = 0; i < v.size(); i++) if (v[i].code != O_N) { to[i] = static_cast<int>(keep.size()); keep.push_back(v[i]); }
		std::vector<Event> ev;
		for (auto e : c.events) {
			if (e.client == static_cast<int>(k) && e.op >= 0 && e.op < 1000) { if (e.op >= static_cast<int>(to.size()) || to[static_cast<size_t>(e.op)] < 0) continue; e.op = to[static_cast<size_t>(e.op)]; }
			ev.push_back(e);
		}
		v = keep;
		c.events = ev;
	}
	while (!c.clients.empty() && c.clients.back().ops.empty()) c.clients.pop_back();
	std::vector<OpSpec> s;
	for (auto & o : c.setup) if (o.code != O_N) s.push_back(o);
	c.setup = s;
}

static Case minimise(Case c, const std::string & cls, double limit, int & tries) {
	const time_t start = time(nullptr);
	auto late = [&] { return static_cast<double>(time(nullptr) - start) > limit; };
	auto good = [&](const Case & x) { if (late()) return false; tries++; Outcome o = attempt(x); return o.on && o.cls == cls; };
	bool progress = true;
	while (progress && !late()) {
		progress = false;
		// whole callers
		for (size_t k = c.clients.size(); k-- > 0;) {
			if (c.clients[k].ops.empty()) continue;
			Case d = c;
			d.clients[k].ops.clear(); d.clients[k].irqs.clear();
			if (good(d)) { c = d; progress = true; }
		}
		// operations, big blocks first
		for (size_t k = 0; k < c.clients.size(); k++) {
			for (size_t step = std::max<size_t>(1, c.clients[k].ops.size() / 2); step >= 1; step /= 2) {
				for (size_t i = 0; i < c.clients[k].ops.size(); i += step) {
					Case d = c;
					bool any = false;
					for (size_t j = i; j < std::min(i + step, d.clients[k].ops.size()); j++) { any |= d.clients[k].ops[j].code != O_N; d.clients[k].ops[j] = OpSpec{}; d.clients[k].ops[j].code = O_N; }
					if (any && good(d)) { c = d; progress = true; }
				}
				if (step == 1) break;
			}
			for (size_t i = 0; i < c.clients[k].ops.size(); i++) if (c.clients[k].ops[i].fk) {
				Case d = c;
				d.clients[k].ops[i].fk = 0;
				if (good(d)) { c = d; progress = true; }
			}
			if (!c.clients[k].irqs.empty()) { Case d = c; d.clients[k].irqs.clear(); if (good(d)) { c = d; progress = true; } }
		}
		for (size_t i = 0; i < c.setup.size(); i++) if (c.setup[i].code != O_N) { Case d = c; d.setup[i] = OpSpec{}; d.setup[i].code = O_N; if (good(d)) { c = d; progress = true; } }
		// schedule and faults
		for (size_t step = std::max<size_t>(1, c.events.size()); step >= 1 && !c.events.empty(); step /= 2) {
			for (size_t i = 0; i < c.events.size();) {
				Case d = c;
				d.events.erase(d.events.begin() + static_cast<long>(i), d.events.begin() + static_cast<long>(std::min(i + step, d.events.size())));
				if (good(d)) { c = d; progress = true; } else i += step;
			}
			if (step == 1) break;
		}
		// subjects
		for (size_t k = 0; k < c.subjects.size(); k++) {
			if (!c.subjects[k].chunks.empty()) { Case d = c; d.subjects[k].chunks.clear(); if (good(d)) { c = d; progress = true; } }
			if (c.subjects[k].eof_at >= 0) { Case d = c; d.subjects[k].eof_at = -1; if (good(d)) { c = d; progress = true; } }
			if (c.subjects[k].is_source) {
				for (size_t i = c.subjects[k].cuts.size(); i-- > 0;) {
					Case d = c;
					auto & s = d.subjects[k];
					int b = i ? s.cuts[i - 1] : 0, e = s.cuts[i];
					s.units.erase(s.units.begin() + b, s.units.begin() + e);
					s.cuts.erase(s.cuts.begin() + static_cast<long>(i));
					for (size_t j = i; j < s.cuts.size(); j++) s.cuts[j] -= e - b;
					if (good(d)) { c = d; progress = true; }
				}
				continue;
			}
			for (size_t step = std::max<size_t>(1, c.subjects[k].units.size() / 2); step >= 1 && !c.subjects[k].units.empty(); step /= 2) {
				for (size_t i = 0; i < c.subjects[k].units.size();) {
					Case d = c;
					auto & u = d.subjects[k].units;
					u.erase(u.begin() + static_cast<long>(i), u.begin() + static_cast<long>(std::min(i + step, u.size())));
					// only well-formed UTF-8 has a model
					bool fine = true;
					if (d.subjects[k].cls == CL_U8 && !d.subjects[k].free_model) {
						for (size_t j = 0; j < u.size() && fine;) {
							size_t len = u[j] < 0x80 ? 1 : (u[j] >> 5) == 6 ? 2 : (u[j] >> 4) == 14 ? 3 : (u[j] >> 3) == 30 ? 4 : 0;
							fine = len && j + len <= u.size();
							for (size_t q = 1; fine && q < len; q++) fine = (u[j + q] >> 6) == 2;
							j += len;
						}
					}
					if (fine && good(d)) { c = d; progress = true; } else i += step;
				}
				if (step == 1) break;
			}
		}
		Case d = c;
		compact(d);
		if (case_to_text(d) != case_to_text(c) && good(d)) { c = d; progress = true; }
	}
	return c;
}

static int cmd_minimise(int argc, char ** argv) {
	// minimise PROP SEED INDEX OUT SECONDS
	if (argc < 7) return 2;
	std::string prop = argv[2];
	uint64_t seed = strtoull(argv[3], nullptr, 10), index = strtoull(argv[4], nullptr, 10);
	trace_tap = static_cast<TraceTap *>(mmap(nullptr, sizeof(TraceTap), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (trace_tap == MAP_FAILED) return 2;
	current_index = index;
	Case c;
	gen_case(prop, seed, index, c);
	trace_tap->n = 0;
	Outcome o = attempt(c);
	std::vector<Event> ev(trace_tap->e, trace_tap->e + trace_tap->n);
	trace_tap = nullptr;
	if (!o.on) { fprintf(stderr, "the run of index %llu shows no violation\n", static_cast<unsigned long long>(index)); return 2; }
	Case d = c;
	d.replay = true;
	d.events = ev;
	Outcome r = attempt(d);
	if (!r.on || r.cls != o.cls) { fprintf(stderr, "recorded schedule of index %llu does not reproduce: %s (%s) and %s (%s)\n", static_cast<unsigned long long>(index), o.cls.c_str(), o.detail.c_str(), r.cls.c_str(), r.detail.c_str()); return 2; }
	int tries = 0;
	size_t ops0 = 0, ops1 = 0, ev0 = ev.size();
	for (auto & k : d.clients) ops0 += k.ops.size();
	Case m = minimise(d, o.cls, atof(argv[6]), tries);
	Outcome last = attempt(m);
	if (!last.on || last.cls != o.cls) { m = d; last = r; }
	for (auto & k : m.clients) ops1 += k.ops.size();
	std::ofstream f(argv[5]);
	f << "# property " << prop << " seed " << seed << " index " << index << "\n";
	f << "# class " << last.cls << "\n# detail " << last.detail << "\n";
	f << "# minimised from " << ops0 << " operations and " << ev0 << " events to " << ops1 << " and " << m.events.size() << " in " << tries << " tries\n";
	f << case_to_text(m);
	f.close();
	printf("%s: %s\n", last.cls.c_str(), last.detail.c_str());
	return 0;
}

static int cmd_replay(int argc, char ** argv) {
	if (argc < 3) return 2;
	std::ifstream f(argv[2]);
	std::stringstream ss;
	ss << f.rdbuf();
	std::string want;
	size_t at = ss.str().find("# class ");
	if (at != std::string::npos) want = ss.str().substr(at + 8, ss.str().find('\n', at) - at - 8);
	Case c;
	std::string err;
	if (!case_from_text(ss.str(), c, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
	Outcome o = attempt(c);
	if (!o.on) { printf("no violation, run hash %016llx\n", static_cast<unsigned long long>(o.hash)); return 0; }
	printf("%s: %s\n", o.cls.c_str(), o.detail.c_str());
	if (!want.empty() && want != o.cls) { fprintf(stderr, "expected %s\n", want.c_str()); return 2; }
	return 1;
}

static int cmd_case(int argc, char ** argv) {
	if (argc < 5) return 2;
	Case c;
	gen_case(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), c);
	Stats st;
	RunResult r = run_case(c, st);
	c.events = r.trace;
	c.replay = true;
	printf("%s", case_to_text(c).c_str());
	printf("# hash %016llx ops %llu ticks %llu skipped %llu %s %s\n", static_cast<unsigned long long>(r.hash), static_cast<unsigned long long>(st.ops), static_cast<unsigned long long>(st.ticks), static_cast<unsigned long long>(st.skipped), r.v.cls.c_str(), r.v.detail.c_str());
	return 0;
}

static int cmd_union(int argc, char ** argv) {
	std::vector<uint64_t> all;
	for (int i = 2; i < argc; i++) {
		std::ifstream f(argv[i], std::ios::binary);
		uint64_t x;
		while (f.read(reinterpret_cast<char *>(&x), 8)) all.push_back(x);
	}
	std::sort(all.begin(), all.end());
	printf("%zu\n", static_cast<size_t>(std::unique(all.begin(), all.end()) - all.begin()));
	return 0;
}

int main(int argc, char ** argv) {
	if (argc < 2) return 2;
	char b[4096];
	ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
	if (n > 0) { b[n] = 0; self = b; }
	std::sort(tables.begin(), tables.end(), [](const Table * a, const Table * c) { return a->pattern != c->pattern ? a->pattern < c->pattern : a->form < c->form; });
	std::string cmd = argv[1];
	if (cmd == "run") return cmd_run(argc, argv);
	if (cmd == "solo") return cmd_solo(argc, argv);
	if (cmd == "minimise") return cmd_minimise(argc, argv);
	if (cmd == "replay") return cmd_replay(argc, argv);
	if (cmd == "case") return cmd_case(argc, argv);
	if (cmd == "union") return cmd_union(argc, argv);
	if (cmd == "list") { for (auto t : tables) printf("%d %d %s\n", t->pattern, t->form, pattern_of(t->pattern).text); return 0; }
	return 2;
}
