// Simulator core: fibers, scheduler, instrumented memory, subjects, faults.
#pragma once
#include <cstdint>
#include <cstddef>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "rt_api.hpp"

// ---------------------------------------------------------------- randomness
struct Rng {
	uint64_t s[2];
	explicit Rng(uint64_t seed = 1) { reseed(seed); }
	static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0xD1B54A32D192ED03ull); if (!(s[0] | s[1])) s[0] = 1; }
	uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
	uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 11) % n) : 0; }
	int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); }
	bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
	uint32_t geometric(uint32_t mean) { // >= 1
		if (mean <= 1) return 1;
		uint64_t v = 1; // inverse-free: draw uniform sum to avoid libm
		v += below(2 * mean - 1);
		return static_cast<uint32_t>(v);
	}
	template <typename T> const T & pick(const std::vector<T> & v) { return v[below(static_cast<uint32_t>(v.size()))]; }
};

// ---------------------------------------------------------------- outcome records
struct Cap { bool on; long b, e; };
struct Rec {
	bool set = false, matched = false, foreign = false;
	std::vector<Cap> caps;
	std::vector<long> longs;
	std::vector<std::vector<uint32_t>> texts;
	void clear() { set = matched = foreign = false; caps.clear(); longs.clear(); texts.clear(); }
};
struct Exp { bool matched = false; std::vector<Cap> caps; };
using Seq = std::vector<Exp>;

// ---------------------------------------------------------------- case description (also the replay file)
enum Class { CL_NARROW, CL_STREAM, CL_U8, CL_U32, CL_U16, CL_WIDE };
int form_class(int form);

struct Chunk { uint64_t delay; int count; };
struct SubjectSpec {
	int cls = CL_NARROW;
	std::vector<uint32_t> units;     // code units
	int place = 0;                   // 0 flush with the end of its page, 1 with the beginning
	bool zt = false;                 // terminated; the terminator may be read
	uint32_t fill = 0;               // seed of the neighbouring bytes
	std::vector<Chunk> chunks;       // streams: how it is delivered (empty: all at once)
	int eof_at = -1;                 // streams: delivery ends early
	bool free_model = false;         // malformed UTF-8: safety only
	// many subjects: the units are cut at these places, and each piece is one subject
	std::vector<int> cuts;
	bool is_source = false;
};
enum OpCode {
	O_EVAL, O_RES_MAKE, O_RES_COPY, O_RES_ASSIGN, O_RES_READ, O_RES_CONV,
	O_RG_MAKE, O_RG_COPY, O_RG_BEGIN, O_IT_MAKE, O_IT_COPY, O_IT_ASSIGN, O_IT_INC, O_IT_POSTINC, O_IT_END, O_IT_EQ, O_IT_READ, O_IT_RES, O_IT_WALK,
	O_DROP, O_EDIT, O_RG_ASSIGN, O_P_MAKE, O_P_BEGIN, O_P_COPY, O_P_ASSIGN, O_P_INC, O_P_POSTINC, O_P_END, O_P_EQ, O_P_READ, O_P_WALK, O_N
};
extern const char * const op_names[O_N];
struct OpSpec {
	int code = 0, table = -1, subj = -1; // table: index into the table registry
	int x = 0, y = 0, z = 0;
	int fk = 0;  // fault kind
	int fn = 0;  // at the fn-th opportunity
	int fx = 0, fy = 0;
	std::vector<uint32_t> text; // the new characters of an edited subject
};
enum FaultKind { FK_NONE, FK_THROW, FK_ALLOC, FK_SINK };
enum EvKind { EV_SW, EV_CRASH, EV_IRQ, EV_FLIP, EV_NEIGH, EV_PICK, EV_N };
extern const char * const ev_names[EV_N];
struct Event { int client, op; uint32_t nest, tick; int kind, a, b; };
struct ClientSpec { std::vector<OpSpec> ops, irqs; };
struct Params {
	int preempt = 0;        // mean number of memory accesses between preemptions (0: never)
	int opsw = 0;           // chance /256 to switch between operations
	int seam = 0;           // chance /256 to switch at a subject iterator call
	int statics = 64;       // chance /256 to switch at an access to mutable static storage
	int crash = 0;          // weight of crash among events
	int irq = 0, flip = 0, neigh = 0, sw = 10;
	int restart = 1;
	int max_crash = 0;
	int oracle = 1;         // 0 safety only, 1 model corrected by a lone run in a fresh process, 2 model
	int crossform = 0;      // a lone run may use another subject form of the same text
	int past_end = 0;       // increments past the end are part of the workload
	int no_alloc = 1;
	long budget = 4000000;  // memory accesses one operation may take
};
struct Case {
	std::string prop;
	uint64_t seed = 0, index = 0;
	Params par;
	std::vector<SubjectSpec> subjects;
	std::vector<OpSpec> setup;
	std::vector<ClientSpec> clients;
	std::vector<Event> events;
	bool replay = false;
};
std::string case_to_text(const Case &);
bool case_from_text(const std::string &, Case &, std::string & err);

// ---------------------------------------------------------------- results of one run
struct Violation { bool on = false; std::string cls, detail; };
struct Stats {
	uint64_t runs = 0, ops = 0, ticks = 0, simns = 0, idle = 0, solos = 0, deviations = 0, matched = 0, steps = 0, blocked = 0, nontrivial = 0;
	uint64_t ev[EV_N] = {}, evin[EV_N] = {};
	uint64_t throws = 0, allocfail = 0, sinkfault = 0, terminated = 0, eofs = 0, chunks = 0, restarts = 0, skipped = 0, allocs = 0, free_ops = 0, statics = 0, model_calls = 0, past_end = 0, malformed = 0, rechecked = 0;
	uint64_t opcount[O_N] = {}, formcount[F_N] = {};
	uint64_t max_op_ticks = 0, edits = 0, edits_refused = 0, longest = 0;
	uint64_t probes[16] = {};
	std::set<uint64_t> interleavings, cases;
	std::set<int> patterns;
};
static constexpr int trace_tap_max = 200000;
struct TraceTap { int n; Event e[trace_tap_max]; };
extern TraceTap * trace_tap;     // events are copied here as they happen (shared with the parent process)
struct RunResult { Violation v; uint64_t hash = 0; std::vector<Event> trace; };
RunResult run_case(const Case &, Stats &);
bool solo_process(int pattern, int form, int what, const std::vector<uint32_t> & units, Seq & out);
extern std::vector<Exp> * solo_dump;

// ---------------------------------------------------------------- catalogue
struct Pattern {
	int id;
	const char * text;   // as given to the library
	int mode;            // 1: multiline
	int api;
	const char * alphabet;
	const char * frags;  // separated by \x1f
	int flags;           // see tools/catalogue.py
	const char * model;  // what the model compiles, if it is spelled differently there
};
extern const Pattern patterns[];
extern const int n_patterns;
const Pattern & pattern_of(int id);
extern std::vector<const Table *> tables;
int find_table(int pattern, int form);

// ---------------------------------------------------------------- reference model
struct Text { std::vector<uint32_t> cp; std::vector<long> off; }; // code points and their unit offsets (size+1)
Text decode(const SubjectSpec &, const std::vector<uint32_t> & units);
Exp model_eval(const Pattern &, int method, const Text &, int from, int to);
const Seq & model_seq(const Pattern &, int kind, const Text &, Seq & out);

void gen_case(const std::string & prop, uint64_t seed, uint64_t index, Case &);
