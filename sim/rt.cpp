// Simulator runtime: everything the library under test can touch or be
// interrupted by is decided here, from one seed or from a replay file.
#include <cxxabi.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <charconv>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <exception>
#include <new>
#include <ostream>
#include <streambuf>
#include "sim.hpp"

const char * const op_names[O_N] = {"eval", "res_make", "res_copy", "res_assign", "res_read", "res_conv", "rg_make", "rg_copy", "rg_begin", "it_make", "it_copy", "it_assign", "it_inc", "it_postinc", "it_end", "it_eq", "it_read", "it_res", "it_walk", "drop", "edit", "rg_assign", "p_make", "p_begin", "p_copy", "p_assign", "p_inc", "p_postinc", "p_end", "p_eq", "p_read", "p_walk"};
const char * const ev_names[EV_N] = {"switch", "crash", "reenter", "flip", "neighbour", "pick"};

// ================================================================ tables
std::vector<const Table *> tables;
void register_table(const Table * t) { tables.push_back(t); }
int find_table(int pattern, int form) {
	for (size_t i = 0; i < tables.size(); i++) if (tables[i]->pattern == pattern && tables[i]->form == form) return static_cast<int>(i);
	return -1;
}
const Pattern & pattern_of(int id) {
	for (int i = 0; i < n_patterns; i++) if (patterns[i].id == id) return patterns[i];
	fprintf(stderr, "no pattern %d\n", id);
	exit(2);
}
int form_class(int f) {
	switch (f) {
	case F_PTR: case F_ZT: case F_SV: case F_RANGE: case F_SPAN: return CL_NARROW;
	case F_BIDI_S: case F_BIDI: case F_FWD_S: case F_RA: return CL_STREAM;
	case F_U8: return CL_U8;
	case F_U32: return CL_U32;
	case F_U16: return CL_U16;
	default: return CL_WIDE;
	}
}
static int unit_size(int cls) { return cls == CL_U32 || cls == CL_WIDE ? 4 : cls == CL_U16 ? 2 : 1; }

// ================================================================ memory
static constexpr size_t page = 4096;
static constexpr int max_subjects = 12;
static constexpr size_t subj_area = 72 * page;   // room for the text
static constexpr size_t subj_stride = subj_area + 2 * page; // guard, text, guard
static constexpr int max_clients = 8;           // the last one is the setup client
static constexpr int slots_per_client = 16;
static constexpr size_t slot_size = 2048;
static constexpr size_t stack_size = 1 << 27;
static constexpr int shared_client = max_clients - 1;

static unsigned char * subj_mem;   // max_subjects * subj_stride + guard
static unsigned char * obj_mem;    // max_clients * slots_per_client * slot_size
static unsigned char * stack_mem;  // max_clients * (guard + stack)
static constexpr size_t subj_total = max_subjects * subj_stride + page;
static constexpr size_t obj_total = static_cast<size_t>(max_clients) * slots_per_client * slot_size;
static constexpr size_t stack_stride = stack_size + page;
static constexpr size_t stack_total = max_clients * stack_stride;
static uintptr_t subj_lo[max_subjects], subj_hi[max_subjects];
enum SlotState : unsigned char { SS_FREE, SS_LIVE, SS_SHARED };
static SlotState slot_state[max_clients * slots_per_client];

// Writable static storage of the shared object that holds the library code.  It is
// put back to its initial contents before every run, so that a run is a function of
// its case only, and one-time initialisation happens in every run.
struct Segment { unsigned char * p; size_t n; std::vector<unsigned char> image; };
static std::vector<Segment> segments;
static unsigned char * tls_mem;
static size_t tls_size;
static std::vector<unsigned char> tls_image;

static int find_segments(dl_phdr_info * info, size_t, void *) {
	if (!strstr(info->dlpi_name, "libpatterns")) return 0;
	uintptr_t relro = 0, relro_end = 0;
	for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
		relro = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
		relro_end = (relro + info->dlpi_phdr[i].p_memsz) & ~static_cast<uintptr_t>(4095);
	}
	for (int i = 0; i < info->dlpi_phnum; i++) {
		auto & h = info->dlpi_phdr[i];
		if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
			uintptr_t b = info->dlpi_addr + h.p_vaddr, e = b + h.p_memsz;
			if (relro_end > b && relro < e) b = std::max(b, relro_end);
			if (b < e) segments.push_back(Segment{reinterpret_cast<unsigned char *>(b), e - b, {}});
		}
		if (h.p_type == PT_TLS && h.p_memsz) {
			tls_mem = static_cast<unsigned char *>(info->dlpi_tls_data);
			tls_size = h.p_memsz;
			tls_image.assign(h.p_memsz, 0);
			memcpy(tls_image.data(), reinterpret_cast<void *>(info->dlpi_addr + h.p_vaddr), h.p_filesz);
		}
	}
	return 0;
}
static void snapshot_statics() {
	dl_iterate_phdr(find_segments, nullptr);
	for (auto & g : segments) g.image.assign(g.p, g.p + g.n);
	if (!tls_mem) tls_size = 0;
}
static void restore_statics() {
	for (auto & g : segments) memcpy(g.p, g.image.data(), g.n);
	if (tls_size) memcpy(tls_mem, tls_image.data(), tls_size);
}
static bool is_static(uintptr_t a) {
	for (auto & g : segments) if (a - reinterpret_cast<uintptr_t>(g.p) < g.n) return true;
	return false;
}

static void setup_memory() {
	// always at the same place, so that even code which looks at addresses behaves the same in every process
	uintptr_t at = 0x200000000000;
	auto map = [&](size_t n) {
		void * p = mmap(reinterpret_cast<void *>(at), n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		at += 0x100000000;
		if (p == MAP_FAILED) { perror("mmap"); exit(2); }
		return static_cast<unsigned char *>(p);
	};
	subj_mem = map(subj_total);
	for (int i = 0; i < max_subjects; i++) mprotect(subj_mem + static_cast<size_t>(i) * subj_stride + page, subj_area, PROT_READ | PROT_WRITE);
	obj_mem = map(obj_total);
	mprotect(obj_mem, obj_total, PROT_READ | PROT_WRITE);
	stack_mem = map(stack_total);
	for (int i = 0; i < max_clients; i++) mprotect(stack_mem + static_cast<size_t>(i) * stack_stride + page, stack_size, PROT_READ | PROT_WRITE);
	snapshot_statics();
}

// ================================================================ subjects at run time
struct Stream {
	const SubjectSpec * spec;
	std::vector<uint32_t> text; // full text; the delivered part grows
	int final_len;
	int delivered;
	size_t next_chunk;
	uint64_t next_time;
	bool eof;
};
struct Source : Stream {
	std::vector<std::pair<int, int>> pieces; // offset, length
	const char * base;
	struct Element { const char * b, * e; bool own; }; // CharRange of lib.hpp
	std::vector<Element> elements;
	const Source * self;                     // SrcRange of lib.hpp
};
struct Subject {
	const SubjectSpec * spec;
	Src src;
	int version;
	int gen;                       // how often it was replaced as a whole
	int place;                     // how often that moved it or changed its length
	std::vector<uint32_t> units;   // what is there now
	Source stream;
	unsigned char * raw;
	Text text;
	int text_version;
};

// ================================================================ fibers
struct Walk {                                // what a walk has to yield
	Seq s;
	bool confirmed = false;                  // replaced by what the library itself yields, alone in a fresh process
	bool altered = false;                    // and that was something else
	std::vector<std::vector<uint32_t>> pieces; // pipes: all subjects
	std::vector<int> where;                  // pipes: subject of each step
	size_t size() const { return s.size(); }
	const Exp & operator[](size_t i) const { return s[i]; }
};
struct Object {
	enum T { NONE, RES, RANGE, IT, PRANGE, PIT } t = NONE;
	int table = -1, subj = -1, kind = 0, step = 0, version = 0, gen = 0, place = 0;
	bool free = false;                       // safety only, no model
	bool ended = false;                      // seen at its end
	std::shared_ptr<Walk> seq;
	Exp exp;                                 // results: the outcome; iterators: what was shown last at this step
	bool shown = false;
};

enum FState { FS_NEW, FS_RUN, FS_BLOCKED, FS_DONE, FS_DEAD };
struct Fiber {
	int id;
	uintptr_t lo, hi;
	void * sp;
	FState st;
	bool in_lib;
	int op;              // index of the running operation (>=1000: re-entrant)
	uint32_t nest;       // how many re-entries happened before in this client
	uint32_t tick;       // accesses since the operation started
	long countdown;
	long optotal;
	int depth;
	const ClientSpec * spec;
	size_t next_op;
	Stream * waiting;
	int waiting_pos;
	Object obj[slots_per_client];
	// fault of the running operation
	int fk, fn;
	long calls, allocs;
	bool fired, terminated;
	int op_subj, op_version;
	uint32_t irq_used;
	int use[8];               // the subjects operations under way are about, by depth
	uint32_t busy;            // own slots in use by operations that are under way
	const Source * watch;     // which source may be touched, and how far it was
	int touched;
	uint64_t eh[2];
	std::vector<unsigned char> tls;
	// replay: pointer into this client's events
	std::vector<Event> script;
	size_t script_pos;
};

static constexpr size_t max_events = 3000;
static constexpr uint32_t boundary = 0xffffffffu; // the tick after the last one

struct Globals {
	const Case * c;
	Stats * st;
	Fiber f[max_clients];
	int nclients;
	Fiber * cur;
	void * main_sp;
	uint64_t main_eh[2];
	uint64_t now;
	int next;
	Rng rng;
	RunResult res;
	int crashes;
	std::vector<Subject> subjects;
	uint64_t ilhash;
	bool interesting, matched_any;
	bool stop;
	std::map<std::vector<uint32_t>, Exp> seen; // outcomes on texts that have no model
	volatile uint64_t run_serial;
};
static Globals G;

extern "C" void * __cxa_get_globals() noexcept;

asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");
extern "C" void sim_switch(void ** save, void * to);

TraceTap * trace_tap;

static void hash_mix(uint64_t v) { G.res.hash = Rng::mix(G.res.hash ^ v) + 0x9E37; }

static void to_main() {
	Fiber * f = G.cur;
	uint64_t * eh = static_cast<uint64_t *>(__cxa_get_globals());
	f->eh[0] = eh[0]; f->eh[1] = eh[1];
	eh[0] = G.main_eh[0]; eh[1] = G.main_eh[1];
	if (tls_size) f->tls.assign(tls_mem, tls_mem + tls_size);
	G.cur = nullptr;
	sim_switch(&f->sp, G.main_sp);
	// resumed
}

[[noreturn]] static void leave_forever() {
	to_main();
	abort();
}

static std::string where_am_i() {
	Fiber * f = G.cur;
	if (!f) return "";
	char b[160];
	const char * name = "?";
	const OpSpec * o = nullptr;
	if (f->id == shared_client) { if (static_cast<size_t>(f->op) < G.c->setup.size()) o = &G.c->setup[static_cast<size_t>(f->op)]; }
	else if (f->op >= 1000) { size_t k = static_cast<size_t>(f->op - 1000); if (k < f->spec->irqs.size()) o = &f->spec->irqs[k]; }
	else if (static_cast<size_t>(f->op) < f->spec->ops.size()) o = &f->spec->ops[static_cast<size_t>(f->op)];
	if (o) name = op_names[o->code];
	snprintf(b, sizeof b, " [client %d op %d %s tick %u", f->id, f->op, name, f->tick);
	std::string s = b;
	if (o && o->table >= 0) {
		s += " pattern " + std::to_string(tables[static_cast<size_t>(o->table)]->pattern) + " form " + std::to_string(tables[static_cast<size_t>(o->table)]->form);
	}
	return s + "]";
}

static void violate(const char * cls, const std::string & detail) {
	if (!G.res.v.on) {
		G.res.v.on = true;
		G.res.v.cls = cls;
		G.res.v.detail = detail + where_am_i();
	}
	G.stop = true;
	if (G.cur) leave_forever();
}

// ================================================================ events
static void load_script(Fiber * f) {
	// countdown to the next scripted event of the running operation
	f->countdown = 1L << 60;
	for (size_t i = 0; i < f->script.size(); i++) {
		const Event & e = f->script[i];
		if (e.kind == EV_PICK || e.op != f->op || e.nest != f->nest || e.tick <= f->tick) continue;
		f->countdown = static_cast<long>(e.tick) - static_cast<long>(f->tick);
		return;
	}
}
static void arm(Fiber * f) {
	if (G.c->replay) { load_script(f); return; }
	const Params & p = G.c->par;
	f->countdown = p.preempt && G.res.trace.size() < max_events ? G.rng.geometric(static_cast<uint32_t>(p.preempt)) : (1L << 60);
}

static void exec_op(Fiber *, const OpSpec &, int opindex);

static bool runnable(const Fiber & f) { return f.st == FS_NEW || f.st == FS_RUN; }

static int random_runnable(int not_this) {
	int c[max_clients], n = 0;
	for (int i = 0; i < G.nclients; i++) if (i != not_this && runnable(G.f[i])) c[n++] = i;
	return n ? c[G.rng.below(static_cast<uint32_t>(n))] : -1;
}

static void note_event(Fiber * f, int kind, int a, int b) {
	Event e{f->id, f->op, f->nest, f->tick, kind, a, b};
	G.res.trace.push_back(e);
	if (trace_tap && trace_tap->n < trace_tap_max) trace_tap->e[trace_tap->n++] = e;
	hash_mix((static_cast<uint64_t>(f->id) << 56) ^ (static_cast<uint64_t>(f->op) << 40) ^ (static_cast<uint64_t>(f->tick) << 8) ^ static_cast<uint64_t>(kind));
	hash_mix(static_cast<uint64_t>(a) * 65537u + static_cast<uint64_t>(b));
	G.st->ev[kind]++;
	if (f->tick && f->tick != boundary) G.st->evin[kind]++;
	if (kind != EV_PICK) G.interesting = true;
	G.ilhash = Rng::mix(G.ilhash ^ (static_cast<uint64_t>(f->id) << 32) ^ (static_cast<uint64_t>(f->op) << 16) ^ static_cast<uint64_t>(kind) ^ (static_cast<uint64_t>(a) << 48) ^ (static_cast<uint64_t>(f->tick / 16) << 20));
}

static void write_unit(Subject & s, size_t i, uint32_t v) {
	s.units[i] = v;
	switch (unit_size(s.spec->cls)) {
	case 1: s.raw[i] = static_cast<unsigned char>(v); break;
	case 2: { uint16_t x = static_cast<uint16_t>(v); memcpy(s.raw + 2 * i, &x, 2); } break;
	default: memcpy(s.raw + 4 * i, &v, 4);
	}
	if (i < s.stream.text.size()) s.stream.text[i] = v;
}

static void fill_neighbours(Subject & s, uint32_t seed) {
	size_t idx = static_cast<size_t>(&s - G.subjects.data());
	unsigned char * b = subj_mem + idx * subj_stride + page;
	Rng r(seed);
	unsigned char * lo = reinterpret_cast<unsigned char *>(subj_lo[idx]);
	unsigned char * hi = reinterpret_cast<unsigned char *>(subj_hi[idx]);
	// only the surroundings can matter: 64 bytes on each side, copies of the subject's own characters
	for (unsigned char * p = lo - std::min<ptrdiff_t>(64, lo - b); p < lo; ++p) *p = s.units.empty() || r.chance(1, 8) ? static_cast<unsigned char>(r.below(256)) : static_cast<unsigned char>(s.units[r.below(static_cast<uint32_t>(s.units.size()))]);
	for (unsigned char * p = hi; p < hi + std::min<ptrdiff_t>(64, b + subj_area - hi); ++p) *p = s.units.empty() || r.chance(1, 8) ? static_cast<unsigned char>(r.below(256)) : static_cast<unsigned char>(s.units[r.below(static_cast<uint32_t>(s.units.size()))]);
}

static bool do_event(Fiber * f, int kind, int a, int b) {
	// true: something happened
	switch (kind) {
	case EV_SW:
		if (a < 0 || a >= G.nclients || a == f->id || !runnable(G.f[a])) return false;
		note_event(f, kind, a, b);
		G.next = a;
		to_main();
		return true;
	case EV_CRASH:
		note_event(f, kind, a, b);
		G.crashes++;
		f->st = FS_DEAD;
		leave_forever();
	case EV_IRQ: {
		if (f->depth >= 3 || static_cast<size_t>(a) >= f->spec->irqs.size()) return false;
		note_event(f, kind, a, b);
		int op = f->op; uint32_t nest = f->nest, tick = f->tick; long total = f->optotal;
		int fk = f->fk, fn = f->fn; long calls = f->calls, allocs = f->allocs; bool fired = f->fired;
		int os = f->op_subj, ov = f->op_version;
		uint32_t busy = f->busy; const Source * watch = f->watch; int touched = f->touched;
		f->depth++;
		f->irq_used++;
		f->nest = f->irq_used;
		exec_op(f, f->spec->irqs[static_cast<size_t>(a)], 1000 + a);
		f->depth--;
		f->op = op; f->nest = nest; f->tick = tick; f->optotal = total;
		f->fk = fk; f->fn = fn; f->calls = calls; f->allocs = allocs; f->fired = fired;
		f->op_subj = os; f->op_version = ov;
		f->busy = busy; f->watch = watch; f->touched = touched;
		return true;
	}
	case EV_FLIP: {
		if (f->op_subj < 0) return false;
		Subject & s = G.subjects[static_cast<size_t>(f->op_subj)];
		if (s.spec->is_source || s.units.empty()) return false;
		note_event(f, kind, a, b);
		size_t i = static_cast<size_t>(a) % s.units.size();
		if (s.spec->zt && b == 0) b = 'a';
		write_unit(s, i, static_cast<uint32_t>(b));
		s.version++;
		return true;
	}
	case EV_NEIGH:
		if (f->op_subj < 0) return false;
		note_event(f, kind, a, b);
		fill_neighbours(G.subjects[static_cast<size_t>(f->op_subj)], static_cast<uint32_t>(a));
		return true;
	}
	return false;
}

static void random_event(Fiber * f, bool only_switch) {
	if (G.res.trace.size() >= max_events) return; // the rest of this run is not disturbed any more
	const Params & p = G.c->par;
	int crash = G.crashes < p.max_crash ? p.crash : 0;
	int w[4] = {p.sw, crash, p.irq, p.flip};
	int total = w[0] + w[1] + w[2] + w[3] + p.neigh;
	int r = only_switch ? 0 : static_cast<int>(G.rng.below(static_cast<uint32_t>(total)));
	if (r < w[0]) { int n = random_runnable(f->id); if (n >= 0) do_event(f, EV_SW, n, 0); return; }
	r -= w[0];
	if (r < w[1]) { do_event(f, EV_CRASH, 0, 0); return; }
	r -= w[1];
	if (r < w[2] && f->irq_used >= 60) return;
	if (r < w[2]) { if (!f->spec->irqs.empty()) do_event(f, EV_IRQ, static_cast<int>(G.rng.below(static_cast<uint32_t>(f->spec->irqs.size()))), 0); return; }
	r -= w[2];
	if (r < w[3]) {
		if (f->op_subj >= 0) {
			Subject & s = G.subjects[static_cast<size_t>(f->op_subj)];
			uint32_t n = static_cast<uint32_t>(s.units.size());
			if (n) {
				uint32_t i = G.rng.below(n), v = s.units[G.rng.below(n)];
				if (G.rng.chance(1, 3)) v ^= 1u << G.rng.below(8);
				if (unit_size(s.spec->cls) == 1) v &= 255;
				// well-formed UTF-8 stays well-formed: operations which begin later have a model
				if (s.spec->cls == CL_U8 && !s.spec->free_model && (v >= 128 || s.units[i] >= 128)) return;
				do_event(f, EV_FLIP, static_cast<int>(i), static_cast<int>(v));
			}
		}
		return;
	}
	do_event(f, EV_NEIGH, static_cast<int>(G.rng.below(1u << 30)), 0);
}

static void scripted(Fiber * f, uint32_t tick) {
	for (size_t i = 0; i < f->script.size(); i++) {
		Event e = f->script[i];
		if (e.kind != EV_PICK && e.op == f->op && e.nest == f->nest && e.tick == tick) do_event(f, e.kind, e.a, e.b);
	}
}

static __attribute__((noinline)) void slow(Fiber * f) {
	f->in_lib = false;
	const long extra = f->optotal + static_cast<long>(f->tick);
	if (extra > G.c->par.budget) violate("no-progress", "operation exceeded " + std::to_string(G.c->par.budget) + " memory accesses");
	if (f->countdown <= 0) {
		if (G.c->replay) {
			scripted(f, f->tick);
		} else {
			random_event(f, false);
		}
		arm(f);
	}
	f->in_lib = true;
}

static __attribute__((noinline)) void static_hit(Fiber * f) {
	G.st->statics++;
	if (G.c->replay || !G.c->par.statics) return;
	if (G.rng.below(256) < static_cast<uint32_t>(G.c->par.statics)) {
		f->in_lib = false;
		random_event(f, true);
		f->in_lib = true;
	}
}

static __attribute__((noinline)) void bad_access(const char * cls, uintptr_t a, unsigned n, bool w, const char * what) {
	G.cur->in_lib = false;
	char b[160];
	snprintf(b, sizeof b, "%s of %u bytes %s", w ? "write" : "read", n, what);
	(void)a;
	violate(cls, b);
}

// ---------------------------------------------------------------- every instrumented access comes here
static inline void check_far(Fiber * f, uintptr_t a, uintptr_t n, bool w) {
	if (a - reinterpret_cast<uintptr_t>(subj_mem) < subj_total) {
		size_t idx = (a - reinterpret_cast<uintptr_t>(subj_mem)) / subj_stride;
		if (idx >= max_subjects) idx = max_subjects - 1;
		if (w) bad_access("subject-write", a, static_cast<unsigned>(n), w, "to the subject");
		if (a < subj_lo[idx]) bad_access("oob-read", a, static_cast<unsigned>(n), w, ("starting " + std::to_string(subj_lo[idx] - a) + " bytes before the subject").c_str());
		if (a + n > subj_hi[idx]) bad_access("oob-read", a, static_cast<unsigned>(n), w, ("reaching " + std::to_string(a + n - subj_hi[idx]) + " bytes past the end of the subject").c_str());
		return;
	}
	if (a - reinterpret_cast<uintptr_t>(obj_mem) < obj_total) {
		size_t idx = (a - reinterpret_cast<uintptr_t>(obj_mem)) / slot_size;
		int owner = static_cast<int>(idx) / slots_per_client;
		if (slot_state[idx] == SS_FREE) bad_access("dead-object", a, static_cast<unsigned>(n), w, "of an object whose lifetime is over");
		if (owner != f->id && slot_state[idx] != SS_SHARED) bad_access("foreign-object", a, static_cast<unsigned>(n), w, "of another caller's object");
		if (slot_state[idx] == SS_SHARED && w && f->id != shared_client) bad_access("shared-write", a, static_cast<unsigned>(n), w, "to an object shared read-only");
		return;
	}
	if (a - reinterpret_cast<uintptr_t>(stack_mem) < stack_total) {
		bad_access("foreign-stack", a, static_cast<unsigned>(n), w, "of another caller's stack");
		return;
	}
	if (w || is_static(a)) static_hit(f);
}
#define SIM_ACCESS(a_, n_, w_) \
	Fiber * f = G.cur; \
	if (!f || !f->in_lib) return; \
	const uintptr_t a = reinterpret_cast<uintptr_t>(a_); \
	f->tick++; \
	if (a - f->lo < stack_size) { \
		if (a < reinterpret_cast<uintptr_t>(__builtin_frame_address(0))) bad_access("dead-stack", a, static_cast<unsigned>(n_), w_, "of a stack frame that is gone"); \
	} else check_far(f, a, static_cast<uintptr_t>(n_), w_); \
	if (--f->countdown <= 0 || (f->tick & 0xffff) == 0) slow(f);

extern "C" {
#define SIM_RW(N) \
	void __tsan_read##N(void * p) { SIM_ACCESS(p, N, false) } \
	void __tsan_write##N(void * p) { SIM_ACCESS(p, N, true) } \
	void __tsan_volatile_read##N(void * p) { SIM_ACCESS(p, N, false) } \
	void __tsan_volatile_write##N(void * p) { SIM_ACCESS(p, N, true) } \
	void __tsan_unaligned_read##N(void * p) { SIM_ACCESS(p, N, false) } \
	void __tsan_unaligned_write##N(void * p) { SIM_ACCESS(p, N, true) } \
	void __tsan_read_write##N(void * p) { SIM_ACCESS(p, N, true) } \
	void __tsan_unaligned_read_write##N(void * p) { SIM_ACCESS(p, N, true) }
SIM_RW(1) SIM_RW(2) SIM_RW(4) SIM_RW(8) SIM_RW(16)
void __tsan_read_range(void * p, size_t n) { if (n) { SIM_ACCESS(p, n, false) } }
void __tsan_write_range(void * p, size_t n) { if (n) { SIM_ACCESS(p, n, true) } }
void __tsan_read1_pc(void * p, void *) { SIM_ACCESS(p, 1, false) }
void __tsan_vptr_update(void **, void *) { }
void __tsan_vptr_read(void **) { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
void __tsan_init() { }
void __tsan_ignore_thread_begin() { }
void __tsan_ignore_thread_end() { }
static void touch(const void * p, size_t n, bool w) { if (n) { SIM_ACCESS(p, n, w) } }
void * __tsan_memcpy(void * d, const void * s, size_t n) { touch(s, n, false); touch(d, n, true); return memcpy(d, s, n); }
void * __tsan_memmove(void * d, const void * s, size_t n) { touch(s, n, false); touch(d, n, true); return memmove(d, s, n); }
void * __tsan_memset(void * d, int c, size_t n) { touch(d, n, true); return memset(d, c, n); }

#define SIM_ATOMIC(B, T) \
	T __tsan_atomic##B##_load(const volatile T * p, int) { touch(const_cast<const T *>(p), sizeof(T), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##B##_store(volatile T * p, T v, int) { touch(const_cast<const T *>(p), sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_exchange(volatile T * p, T v, int) { touch(const_cast<const T *>(p), sizeof(T), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_add(volatile T * p, T v, int) { touch(const_cast<const T *>(p), sizeof(T), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_sub(volatile T * p, T v, int) { touch(const_cast<const T *>(p), sizeof(T), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_and(volatile T * p, T v, int) { touch(const_cast<const T *>(p), sizeof(T), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_or(volatile T * p, T v, int) { touch(const_cast<const T *>(p), sizeof(T), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_xor(volatile T * p, T v, int) { touch(const_cast<const T *>(p), sizeof(T), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T * p, T * e, T v, int, int) { touch(const_cast<const T *>(p), sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T * p, T * e, T v, int, int) { touch(const_cast<const T *>(p), sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T * p, T e, T v, int, int) { touch(const_cast<const T *>(p), sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
SIM_ATOMIC(8, uint8_t)
SIM_ATOMIC(16, uint16_t)
SIM_ATOMIC(32, uint32_t)
SIM_ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }

// ---------------------------------------------------------------- C library calls made by library code (link-time wrapped)
void * __wrap_memcpy(void * d, const void * s, size_t n) { touch(s, n, false); touch(d, n, true); return memcpy(d, s, n); }
void * __wrap_memmove(void * d, const void * s, size_t n) { touch(s, n, false); touch(d, n, true); return memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { touch(d, n, true); return memset(d, c, n); }
int __wrap_memcmp(const void * a, const void * b, size_t n) { touch(a, n, false); touch(b, n, false); return memcmp(a, b, n); }
void * __wrap_memchr(const void * a, int c, size_t n) { touch(a, n, false); return const_cast<void *>(memchr(a, c, n)); }
size_t __wrap_strlen(const char * s) {
	size_t n = 0; // the guard page stops a runaway
	while (s[n]) ++n;
	touch(s, n + 1, false);
	return n;
}
int __wrap_wmemcmp(const wchar_t * a, const wchar_t * b, size_t n) { touch(a, n * 4, false); touch(b, n * 4, false); return wmemcmp(a, b, n); }
wchar_t * __wrap_wmemcpy(wchar_t * a, const wchar_t * b, size_t n) { touch(b, n * 4, false); touch(a, n * 4, true); return wmemcpy(a, b, n); }
size_t __wrap_wcslen(const wchar_t * s) {
	size_t n = 0;
	while (s[n]) ++n;
	touch(s, (n + 1) * 4, false);
	return n;
}

// ---------------------------------------------------------------- one-time initialisation and locks, fiber aware
static void yield_blocked() {
	Fiber * f = G.cur;
	bool il = f->in_lib;
	f->in_lib = false;
	f->optotal += 1000;
	if (f->optotal > G.c->par.budget) violate("no-progress", "blocked for ever on a lock inside the library");
	int n = G.c->replay ? -1 : random_runnable(f->id);
	if (n < 0) for (int k = 1; k <= G.nclients && n < 0; k++) { int i = (f->id + k) % G.nclients; if (i != f->id && runnable(G.f[i])) n = i; }
	if (n < 0) violate("no-progress", "deadlock inside the library");
	G.next = n;
	to_main();
	f->in_lib = il;
}
int __cxa_guard_acquire(uint64_t * g) noexcept {
	unsigned char * b = reinterpret_cast<unsigned char *>(g);
	for (;;) {
		if (b[0]) return 0;
		if (!b[1]) { b[1] = 1; return 1; }
		if (!G.cur) return 1;
		yield_blocked();
	}
}
void __cxa_guard_release(uint64_t * g) noexcept { unsigned char * b = reinterpret_cast<unsigned char *>(g); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t * g) noexcept { reinterpret_cast<unsigned char *>(g)[1] = 0; }

int __wrap_pthread_mutex_lock(pthread_mutex_t * m) {
	Fiber * f = G.cur;
	if (!f || !f->in_lib) return pthread_mutex_lock(m);
	touch(m, 4, true);
	while (pthread_mutex_trylock(m) != 0) yield_blocked();
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { return pthread_mutex_unlock(m); }
} // extern "C"

// ================================================================ allocation
struct SimFault { };
static void * sim_alloc(size_t n) {
	Fiber * f = G.cur;
	if (f && f->in_lib) {
		f->allocs++;
		G.st->allocs++;
		if (f->fk == FK_ALLOC && f->allocs == f->fn) {
			f->fired = true;
			G.st->allocfail++;
			G.interesting = true;
			f->in_lib = false;
			throw std::bad_alloc();
		}
		f->tick++;
		if (--f->countdown <= 0) slow(f); // an allocation is a scheduling point too
	}
	return malloc(n ? n : 1);
}
void * operator new(size_t n) { void * p = sim_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { void * p = sim_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { try { return sim_alloc(n); } catch (...) { return nullptr; } }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { try { return sim_alloc(n); } catch (...) { return nullptr; } }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
extern "C" {
void * __wrap_malloc(size_t n) {
	Fiber * f = G.cur;
	if (f && f->in_lib) {
		f->allocs++;
		G.st->allocs++;
		if (f->fk == FK_ALLOC && f->allocs == f->fn) { f->fired = true; G.st->allocfail++; G.interesting = true; return nullptr; }
	}
	return malloc(n);
}
}

// ================================================================ checked subject iterators
extern "C" {
static Stream * mut(const Stream * s) { return const_cast<Stream *>(s); }

static void seam(Fiber * f) {
	// entered with in_lib cleared
	f->tick++;
	f->calls++;
	if (f->fk == FK_THROW && f->calls == f->fn) {
		f->fired = true;
		G.st->throws++;
		G.interesting = true;
		throw SimFault();
	}
	--f->countdown;
	if (f->countdown <= 0 || (f->tick & 0xffff) == 0) { slow(f); f->in_lib = false; }
	else if (!G.c->replay && G.c->par.seam && static_cast<int>(G.rng.below(256)) < G.c->par.seam) random_event(f, true);
}
struct SeamGuard {
	Fiber * f;
	SeamGuard(): f(G.cur) { if (f) f->in_lib = false; }
	~SeamGuard() { if (f) f->in_lib = true; }
};
static void wait_for(Fiber * f, Stream * s, int pos) {
	while (!s->eof && s->delivered <= pos) {
		f->st = FS_BLOCKED;
		f->waiting = s;
		f->waiting_pos = pos;
		G.st->blocked++;
		G.interesting = true;
		hash_mix(0xB10C ^ static_cast<uint64_t>(pos));
		to_main();
	}
}
uint32_t sim_deref(const Stream * cs, int pos) {
	SeamGuard g;
	Fiber * f = g.f;
	if (!cs) violate("singular-iterator", "dereference of a default-constructed subject iterator");
	seam(f);
	Stream * s = mut(cs);
	if (pos < 0) violate("iterator-range", "dereference before the beginning of the subject");
	wait_for(f, s, pos);
	if (pos >= s->delivered) violate("iterator-range", "dereference at or after the end of the subject");
	return s->text[static_cast<size_t>(pos)];
}
void sim_inc(const Stream * cs, int pos) {
	SeamGuard g;
	if (!cs) violate("singular-iterator", "increment of a default-constructed subject iterator");
	seam(g.f);
	Stream * s = mut(cs);
	if (pos < 0) violate("iterator-range", "increment from before the beginning");
	wait_for(g.f, s, pos);
	if (pos >= s->delivered) violate("iterator-range", "increment past the end of the subject");
}
void sim_dec(const Stream * cs, int pos) {
	SeamGuard g;
	if (!cs) violate("singular-iterator", "decrement of a default-constructed subject iterator");
	seam(g.f);
	if (pos <= 0) violate("iterator-range", "decrement before the beginning of the subject");
}
bool sim_at_end(const Stream * cs, int pos) {
	SeamGuard g;
	if (!cs) violate("singular-iterator", "comparison of a default-constructed subject iterator with the end");
	seam(g.f);
	Stream * s = mut(cs);
	if (pos < 0) violate("iterator-range", "comparison from before the beginning");
	wait_for(g.f, s, pos);
	if (pos > s->delivered) violate("iterator-range", "iterator past the end of the subject");
	return s->eof && pos >= s->delivered;
}
void sim_cmp(const Stream * a, const Stream * b) {
	SeamGuard g;
	seam(g.f);
	if (a && b && a != b) violate("iterator-mix", "iterators of different subjects compared");
}
void sim_jump(const Stream * cs, int pos, long by) {
	SeamGuard g;
	if (!cs) violate("singular-iterator", "advance of a default-constructed subject iterator");
	seam(g.f);
	Stream * s = mut(cs);
	const long to = pos + by;
	if (to < 0) violate("iterator-range", "advance to before the beginning of the subject");
	if (to > 0) wait_for(g.f, s, static_cast<int>(std::min<long>(to, s->final_len)) - 1);
	if (to > s->final_len) violate("iterator-range", "advance past the end of the subject");
}
int sim_length(const Stream * s) { return s->final_len; }

SvRaw src_deref(const Source * cs, int pos) {
	SeamGuard g;
	if (!cs) violate("singular-iterator", "dereference of a default-constructed source iterator");
	seam(g.f);
	Source * s = const_cast<Source *>(cs);
	if (pos < 0) violate("iterator-range", "source dereferenced before its beginning");
	if (cs == g.f->watch) g.f->touched = std::max(g.f->touched, pos);
	wait_for(g.f, s, pos);
	if (pos >= s->delivered) violate("iterator-range", "source dereferenced at its end");
	auto & p = s->pieces[static_cast<size_t>(pos)];
	return SvRaw{s->base + p.first, static_cast<size_t>(p.second)};
}
const void * src_element(const Source * cs, int pos) {
	src_deref(cs, pos);
	return &cs->elements[static_cast<size_t>(pos)];
}
const void * src_range(const Source * s) { return &s->self; }
void src_inc(const Source * cs, int pos) {
	SeamGuard g;
	if (!cs) violate("singular-iterator", "increment of a default-constructed source iterator");
	seam(g.f);
	Source * s = const_cast<Source *>(cs);
	wait_for(g.f, s, pos);
	if (pos < 0 || pos >= s->delivered) violate("iterator-range", "source incremented past its end");
}
bool src_at_end(const Source * cs, int pos) {
	SeamGuard g;
	if (!cs) violate("singular-iterator", "comparison of a default-constructed source iterator with the end");
	seam(g.f);
	Source * s = const_cast<Source *>(cs);
	if (cs == g.f->watch) g.f->touched = std::max(g.f->touched, pos);
	wait_for(g.f, s, pos);
	if (pos < 0 || pos > s->delivered) violate("iterator-range", "source iterator past the end");
	return s->eof && pos >= s->delivered;
}

// ---------------------------------------------------------------- recording
struct RecGuard {
	Fiber * f;
	bool il;
	RecGuard(): f(G.cur), il(f && f->in_lib) { if (f) f->in_lib = false; }
	~RecGuard() { if (f) f->in_lib = il; }
};
void rec_begin(Rec * r, bool m, int n) { RecGuard g; r->set = true; r->matched = m; r->caps.assign(static_cast<size_t>(m ? n : 0), Cap{false, -1, -1}); }
void rec_cap(Rec * r, int i, bool on, long b, long e, bool foreign) { RecGuard g; r->caps[static_cast<size_t>(i)] = Cap{on, b, e}; r->foreign |= foreign; }
void rec_long(Rec * r, long v) { RecGuard g; r->set = true; r->longs.push_back(v); }
void rec_char(Rec * r, uint32_t c) { RecGuard g; r->set = true; if (r->texts.empty()) r->texts.emplace_back(); r->texts[0].push_back(c); }
void rec_text(Rec * r, const void * p, size_t n, int us) {
	RecGuard g;
	r->set = true;
	std::vector<uint32_t> t;
	if (n > 100000) violate("bad-text", "absurd length of a converted text");
	for (size_t i = 0; i < n; i++) {
		if (us == 1) t.push_back(static_cast<const unsigned char *>(p)[i]);
		else if (us == 2) t.push_back(static_cast<const uint16_t *>(p)[i]);
		else t.push_back(static_cast<const uint32_t *>(p)[i]);
	}
	r->texts.push_back(std::move(t));
}
} // extern "C"

// ================================================================ a faulty stream buffer
struct SinkBuf : std::streambuf {
	std::string got;
	int fail_at = -1;   // number of characters accepted before the fault
	int mode = 0;       // 0 eof, 1 throw, 2 short write then recover refused, 3 stall
	int bufsize = 0;
	bool faulted = false;
	char buf[16];
	explicit SinkBuf(int bs): bufsize(bs) { if (bs) setp(buf, buf + bs); }
	bool take(char c) {
		Fiber * f = G.cur;
		bool il = f && f->in_lib;
		if (f) {
			f->in_lib = false;
			f->tick++;
			if (--f->countdown <= 0) { slow(f); f->in_lib = false; }
		}
		bool ok = true;
		if (fail_at >= 0 && static_cast<int>(got.size()) >= fail_at) {
			if (!faulted) { G.st->sinkfault++; G.interesting = true; }
			faulted = true;
			if (f) f->fired = true;
			if (mode == 1) { if (f) f->in_lib = il; throw SimFault(); }
			ok = false;
		} else got.push_back(c);
		if (f) f->in_lib = il;
		return ok;
	}
	bool drain() {
		while (pbase() < pptr()) {
			if (!take(*pbase())) {
				// what could not be written stays out
				setp(buf, buf + bufsize);
				return false;
			}
			std::ptrdiff_t left = pptr() - pbase() - 1;
			memmove(buf, buf + 1, static_cast<size_t>(left));
			setp(buf, buf + bufsize);
			pbump(static_cast<int>(left));
		}
		return true;
	}
	int_type overflow(int_type c) override {
		if (bufsize && !drain()) return traits_type::eof();
		if (c == traits_type::eof()) return 0;
		if (bufsize) { *pptr() = static_cast<char>(c); pbump(1); return c; }
		return take(static_cast<char>(c)) ? c : traits_type::eof();
	}
	std::streamsize xsputn(const char * s, std::streamsize n) override {
		for (std::streamsize i = 0; i < n; i++) {
			touch(s + i, 1, false);
			if (bufsize) { if (sputc(s[i]) == traits_type::eof()) return i; }
			else if (!take(s[i])) return i;
		}
		return n;
	}
	int sync() override { return !bufsize || drain() ? 0 : -1; }
};

// ================================================================ operations
static unsigned char * slot_mem(int client, int slot) { return obj_mem + (static_cast<size_t>(client) * slots_per_client + static_cast<size_t>(slot)) * slot_size; }
static SlotState & slot_st(int client, int slot) { return slot_state[client * slots_per_client + slot]; }

// slots >= 100 name objects shared by everybody
static Fiber * owner_of(Fiber * f, int & slot) {
	if (slot >= 100) { slot -= 100; return &G.f[shared_client]; }
	return f;
}
static Object * look(Fiber * f, int slot, Object::T t) {
	Fiber * o = owner_of(f, slot);
	if (slot < 0 || slot >= slots_per_client) return nullptr;
	Object & x = o->obj[slot];
	if (x.t != t) return nullptr;
	// what refers to characters that are gone can only be dropped; a range is over whatever is there
	if (t == Object::RES || t == Object::IT) { if (x.gen != G.subjects[static_cast<size_t>(x.subj)].gen) return nullptr; }
	if (t == Object::RANGE) { if (x.place != G.subjects[static_cast<size_t>(x.subj)].place) return nullptr; }
	return &x;
}
static void * mem_of(Fiber * f, int slot) {
	Fiber * o = owner_of(f, slot);
	return slot_mem(o->id, slot);
}
static void kill_slot(Fiber * f, int slot) {
	f->obj[slot] = Object{};
	slot_st(f->id, slot) = SS_FREE;
	memset(slot_mem(f->id, slot), 0xDD, slot_size);
}
static void birth(Fiber * f, int slot) {
	slot_st(f->id, slot) = f->id == shared_client ? SS_SHARED : SS_LIVE;
	memset(slot_mem(f->id, slot), 0xCD, slot_size);
}

static const Text & text_of(Subject & s) {
	if (s.text_version != s.version) {
		std::vector<uint32_t> u = s.units;
		if (s.spec->cls == CL_STREAM) u.resize(static_cast<size_t>(s.stream.final_len));
		s.text = decode(*s.spec, u);
		s.text_version = s.version;
	}
	return s.text;
}

static std::string show_caps(const std::vector<Cap> & c) {
	std::string s;
	for (auto & x : c) s += x.on ? "[" + std::to_string(x.b) + "," + std::to_string(x.e) + ")" : std::string("[-]");
	return s;
}

static bool changed(Fiber * f, int subj, int version) { (void)f; return subj >= 0 && G.subjects[static_cast<size_t>(subj)].version != version; }

static void check_safe(const Rec & r, const Subject & s) {
	long n = static_cast<long>(s.spec->cls == CL_STREAM ? static_cast<size_t>(s.stream.final_len) : s.units.size());
	if (r.foreign) violate("foreign-result", "result refers to another subject");
	if (!r.matched) return;
	for (auto & c : r.caps) if (c.on && !(0 <= c.b && c.b <= c.e && c.e <= n)) violate("result-range", "capture outside of the subject of " + std::to_string(n) + ": " + show_caps(r.caps));
}

static Exp exp_of(const Rec & r) { Exp e; e.matched = r.matched; e.caps = r.caps; return e; }
static bool same_exp(const Exp & a, const Exp & e) {
	bool ok = a.matched == e.matched;
	if (ok && a.matched) {
		ok = a.caps.size() == e.caps.size();
		for (size_t i = 0; ok && i < e.caps.size(); i++) ok = a.caps[i].on == e.caps[i].on && (!e.caps[i].on || (a.caps[i].b == e.caps[i].b && a.caps[i].e == e.caps[i].e));
	}
	return ok;
}
static bool rec_ok(const Rec & r, const Exp & e) { return r.set && same_exp(exp_of(r), e); }
static void check_rec(const Rec & r, const Exp & e, const Subject & s, const char * what) {
	check_safe(r, s);
	if (!rec_ok(r, e)) violate("mismatch", std::string(what) + ": got " + (r.matched ? show_caps(r.caps) : "no match") + " expected " + (e.matched ? show_caps(e.caps) : "no match"));
}

// ---------------------------------------------------------------- what the library does when it is left alone
std::vector<Exp> * solo_dump;
static int reference_form(const Table * t) {
	if (!G.c->par.crossform) return t->form;
	auto has = [&](int form) { return find_table(t->pattern, form) >= 0; };
	const int cls = form_class(t->form);
	if (cls == CL_NARROW || cls == CL_STREAM) {
		if (t->form != F_SV && has(F_SV)) return F_SV;
		if (t->form != F_PTR && has(F_PTR)) return F_PTR;
	} else if (t->form != F_U32 && has(F_U32)) return F_U32;
	return t->form;
}
// what: 0..2 evaluation, 10.. walk
static bool solo(const Table * t, int what, const Text & text, const std::vector<uint32_t> & units, Seq & out) {
	static std::map<std::vector<uint32_t>, std::pair<bool, Seq>> cache;
	const int form = reference_form(t);
	const bool mapped = form_class(t->form) == CL_U8 && form_class(form) != CL_U8;
	std::vector<uint32_t> key{static_cast<uint32_t>(t->pattern), static_cast<uint32_t>(form), static_cast<uint32_t>(what)};
	const std::vector<uint32_t> & u = mapped ? text.cp : units;
	key.insert(key.end(), u.begin(), u.end());
	auto it = cache.find(key);
	if (it == cache.end()) {
		std::pair<bool, Seq> r;
		G.st->solos++;
		r.first = solo_process(t->pattern, form, what, u, r.second);
		it = cache.emplace(key, r).first;
	}
	out = it->second.second;
	if (mapped) for (auto & e : out) for (auto & c : e.caps) if (c.on) {
		if (c.b < 0 || c.e < 0 || static_cast<size_t>(std::max(c.b, c.e)) >= text.off.size()) return false;
		c.b = text.off[static_cast<size_t>(c.b)]; c.e = text.off[static_cast<size_t>(c.e)];
	}
	return it->second.first;
}
static std::vector<uint32_t> final_units(const Subject & s) {
	std::vector<uint32_t> u = s.units;
	if (s.spec->cls == CL_STREAM) u.resize(static_cast<size_t>(s.stream.final_len));
	return u;
}
// the model was not met: is it the model that is off?
static bool reconsider(Object * a, Subject & s) {
	if (G.c->par.oracle != 1 || !a->seq || a->seq->confirmed) return false;
	Walk & w = *a->seq;
	w.confirmed = true;
	const Table * t = tables[static_cast<size_t>(a->table)];
	Seq q;
	if (s.spec->is_source) {
		w.where.clear();
		int at = 0;
		for (size_t i = 0; i < w.pieces.size(); i++) {
			SubjectSpec plain;
			Seq one;
			if (!solo(t, a->kind, decode(plain, w.pieces[i]), w.pieces[i], one) || one.size() != 1) return false;
			if (one[0].matched) {
				for (auto & c : one[0].caps) if (c.on) { c.b += at; c.e += at; }
				q.push_back(one[0]);
				w.where.push_back(static_cast<int>(i));
			}
			at += static_cast<int>(w.pieces[i].size());
		}
	} else {
		if (changed(nullptr, a->subj, a->version)) return false;
		if (!solo(t, 10 + a->kind, text_of(s), final_units(s), q)) return false;
	}
	bool same = q.size() == w.s.size();
	for (size_t i = 0; same && i < q.size(); i++) same = same_exp(q[i], w.s[i]);
	if (same) return false;
	w.s = q;
	w.altered = true;
	G.st->deviations++;
	return true;
}
// outcomes on texts without a model have to agree with each other
static void same_as_before(const Table * t, int what, int step, const std::vector<uint32_t> & units, const Rec & rec) {
	if (units.size() > 1000) return;
	std::vector<uint32_t> key{static_cast<uint32_t>(t->pattern), static_cast<uint32_t>(t->form), static_cast<uint32_t>(what), static_cast<uint32_t>(step)};
	key.insert(key.end(), units.begin(), units.end());
	auto r = G.seen.emplace(key, exp_of(rec));
	if (!r.second) {
		G.st->probes[4]++;
		if (!same_exp(r.first->second, exp_of(rec))) violate("mismatch", "the same text gives another outcome elsewhere: " + (rec.matched ? show_caps(rec.caps) : "no match") + " and before " + (r.first->second.matched ? show_caps(r.first->second.caps) : "no match"));
	}
}
static void hash_rec(const Rec & r) {
	hash_mix(r.matched ? 77 : 78);
	for (auto & c : r.caps) hash_mix(static_cast<uint64_t>(c.on) ^ (static_cast<uint64_t>(c.b) << 8) ^ (static_cast<uint64_t>(c.e) << 32));
	for (long l : r.longs) hash_mix(static_cast<uint64_t>(l));
	for (auto & t : r.texts) for (uint32_t u : t) hash_mix(u);
	if (r.matched) { G.st->matched++; G.matched_any = true; }
}

static const void * src_ptr(const Subject & s) { return s.raw; }

static bool edit_subject(Subject & s, const std::vector<uint32_t> & units) {
	const size_t idx = static_cast<size_t>(&s - G.subjects.data());
	const size_t us = static_cast<size_t>(unit_size(s.spec->cls));
	const size_t bytes = (units.size() + (s.spec->zt ? 1 : 0)) * us;
	if (bytes > subj_area) return false;
	unsigned char * b = subj_mem + idx * subj_stride + page;
	unsigned char * p = s.spec->place == 0 ? b + subj_area - bytes : b;
	if (p != s.raw || units.size() != s.units.size()) s.place++;
	s.gen++;
	s.version++;
	s.raw = p;
	subj_lo[idx] = reinterpret_cast<uintptr_t>(p);
	subj_hi[idx] = subj_lo[idx] + bytes;
	s.units = units;
	s.stream.text = units;
	for (size_t i = 0; i < units.size(); i++) write_unit(s, i, units[i]);
	if (s.spec->zt) memset(p + units.size() * us, 0, us);
	s.stream.final_len = s.stream.delivered = static_cast<int>(units.size());
	s.src.data = p;
	s.src.len = units.size();
	fill_neighbours(s, static_cast<uint32_t>(s.version) * 7919u + s.spec->fill);
	return true;
}

static __attribute__((noinline)) void scrub_stack() { // frames of the finished call are gone
	unsigned char junk[4096];
	memset(junk, 0xAB, sizeof junk);
	asm volatile("" : : "r"(junk) : "memory");
}
// run one call into the library
template <typename Fn> static void call(Fiber * f, Fn && fn) {
	f->in_lib = true;
	try {
		fn();
	} catch (...) {
		f->in_lib = false;
		violate("escape", "an exception left the operation");
	}
	f->in_lib = false;
	if (f->fired && (f->fk == FK_THROW)) violate("survived", "operation returned although the subject iterator failed");
	if (f->allocs && G.c->par.no_alloc && f->fk != FK_ALLOC) violate("alloc", "operation allocated memory");
	scrub_stack();
}

static bool usable(Fiber * f, const OpSpec & o, Subject *& s, const Table *& t) {
	(void)f;
	if (o.table < 0 || o.subj < 0 || static_cast<size_t>(o.subj) >= G.subjects.size()) return false;
	t = tables[static_cast<size_t>(o.table)];
	s = &G.subjects[static_cast<size_t>(o.subj)];
	if (s->spec->is_source || form_class(t->form) != s->spec->cls) return false;
	const bool zt = t->form == F_ZT || t->form == F_WZT;
	if (zt && !s->spec->zt) return false;
	return true;
}

static Src src_for(Subject & s, const Table * t) {
	(void)t;
	Src r = s.src;
	return r;
}

static std::shared_ptr<Walk> seq_for(Subject & s, const Table * t, int kind) {
	auto q = std::make_shared<Walk>();
	model_seq(pattern_of(t->pattern), kind, text_of(s), q->s);
	G.st->model_calls++;
	return q;
}

static bool is_free(const Subject & s) { return s.spec->free_model || G.c->par.oracle == 0; }

static void convert_check(Fiber * f, const OpSpec & o, Object * r, void * mem, Rec & rec);

static void exec_op(Fiber * f, const OpSpec & o, int opindex) {
	f->op = opindex;
	f->tick = 0;
	f->optotal = 0;
	f->fk = o.fk;
	f->fn = o.fn;
	f->calls = f->allocs = 0;
	f->fired = false;
	f->in_lib = false;
	f->op_subj = o.subj;
	f->use[f->depth] = o.code == O_EDIT ? -1 : o.subj;
	arm(f);
	Subject * s = nullptr;
	const Table * t = nullptr;
	const bool with_table = usable(f, o, s, t);
	f->op_version = s ? s->version : 0;
	Rec rec;
	bool done = true;
	const uint32_t was_busy = f->busy;
	auto taken = [&](int slot) { return slot >= 0 && slot < slots_per_client && (was_busy >> slot) & 1; };
	auto dst_ok = [&](int slot) { return slot >= 0 && slot < slots_per_client && f->obj[slot].t == Object::NONE && slot_st(f->id, slot) == SS_FREE; };
	auto subject_of = [&](Object * x) -> Subject & { return G.subjects[static_cast<size_t>(x->subj)]; };
	auto stale = [&](Object * x) { return x->free || changed(f, x->subj, x->version); };
	auto set_ctx = [&](Object * x) { f->op_subj = f->use[f->depth] = x->subj; f->op_version = subject_of(x).version; };

	// objects an interrupted operation of the same caller is working on are left alone
	const bool in_use = o.code != O_EVAL && (taken(o.x) || taken(o.y));
	if (o.code != O_EVAL) { if (o.x >= 0 && o.x < slots_per_client) f->busy |= 1u << o.x; if (o.y >= 0 && o.y < slots_per_client) f->busy |= 1u << o.y; }
	switch (in_use ? static_cast<int>(O_N) : o.code) {
	case O_EVAL: case O_RES_MAKE: {
		int slot = o.code == O_EVAL ? slots_per_client - 1 - f->depth : o.x;
		if (!with_table || !dst_ok(slot)) { done = false; break; }
		int ver = s->version;
		Exp e;
		const bool fr = is_free(*s);
		if (!fr) { const Text & tx = text_of(*s); e = model_eval(pattern_of(t->pattern), o.y, tx, 0, static_cast<int>(tx.cp.size())); G.st->model_calls++; }
		birth(f, slot);
		void * m = slot_mem(f->id, slot);
		Src src = src_for(*s, t);
		call(f, [&] { t->res_make(o.y, o.z, m, src); t->res_read(o.z, m, &rec, src); });
		const bool fresh = !fr && s->version == ver;
		check_safe(rec, *s);
		if (fresh) {
			if (!rec_ok(rec, e) && G.c->par.oracle == 1) {
				Seq q;
				if (solo(t, o.y, text_of(*s), final_units(*s), q) && q.size() == 1 && !same_exp(e, q[0])) { e = q[0]; G.st->deviations++; }
			}
			check_rec(rec, e, *s, o.y == M_MATCH ? "match" : o.y == M_SEARCH ? "search" : "starts_with");
		} else {
			G.st->free_ops++;
			if (s->version == ver) same_as_before(t, o.y, 0, final_units(*s), rec);
			e = exp_of(rec);
		}
		if (solo_dump) solo_dump->push_back(e);
		hash_rec(rec);
		if (o.code == O_EVAL) {
			call(f, [&] { t->res_drop(m); });
			kill_slot(f, slot);
		} else {
			Object & x = f->obj[slot];
			x.t = Object::RES; x.table = o.table; x.subj = o.subj; x.exp = e; x.version = s->version; x.gen = s->gen;
		}
		G.st->formcount[t->form]++;
		G.st->patterns.insert(t->pattern);
	} break;
	case O_RES_COPY: case O_RES_ASSIGN: {
		Object * a = look(f, o.y, Object::RES);
		Object * d = o.code == O_RES_ASSIGN ? look(f, o.x, Object::RES) : nullptr;
		const bool moved = o.z == 1;
		if (!a || o.x >= 100 || (moved && (o.y >= 100 || a == d)) || (o.code == O_RES_COPY ? !dst_ok(o.x) : (!d || d->table != a->table))) { done = false; break; }
		const Table * tt = tables[static_cast<size_t>(a->table)];
		set_ctx(a);
		Object copy = *a;
		void * from = mem_of(f, o.y);
		if (o.code == O_RES_COPY) { birth(f, o.x); call(f, [&] { tt->res_copy(o.z, slot_mem(f->id, o.x), from); }); }
		else call(f, [&] { tt->res_assign(o.z, slot_mem(f->id, o.x), from); });
		f->obj[o.x] = copy;
		if (moved) { // moved from: gone
			call(f, [&] { tt->res_drop(from); });
			kill_slot(f, o.y);
		}
	} break;
	case O_RES_READ: {
		Object * a = look(f, o.x, Object::RES);
		if (!a) { done = false; break; }
		const Table * tt = tables[static_cast<size_t>(a->table)];
		set_ctx(a);
		Subject & ss = subject_of(a);
		void * m = mem_of(f, o.x);
		call(f, [&] { tt->res_read(o.y & 1, m, &rec, ss.src); });
		// results hold positions only: they never change, whatever happens to the characters
		check_rec(rec, a->exp, ss, "stored result");
		hash_rec(rec);
	} break;
	case O_RES_CONV: {
		Object * a = look(f, o.x, Object::RES);
		if (!a || stale(a)) { done = false; break; }
		set_ctx(a);
		convert_check(f, o, a, mem_of(f, o.x), rec);
		hash_rec(rec);
	} break;
	case O_RG_MAKE: case O_IT_MAKE: {
		if (!with_table || !t->range_make || !dst_ok(o.x)) { done = false; break; }
		int ver = s->version;
		const bool fr = is_free(*s);
		auto q = fr ? nullptr : seq_for(*s, t, o.y);
		birth(f, o.x);
		void * m = slot_mem(f->id, o.x);
		Src src = src_for(*s, t);
		if (o.code == O_RG_MAKE) call(f, [&] { t->range_make(o.y, o.z, m, src); });
		else call(f, [&] { t->it_make(o.y, o.z, m, src); });
		Object & x = f->obj[o.x];
		x.t = o.code == O_RG_MAKE ? Object::RANGE : Object::IT;
		x.table = o.table; x.subj = o.subj; x.kind = o.y; x.seq = q; x.version = ver; x.gen = s->gen; x.place = s->place; x.free = fr || s->version != ver;
		G.st->formcount[t->form]++;
		G.st->patterns.insert(t->pattern);
	} break;
	case O_RG_COPY: case O_RG_ASSIGN: {
		Object * a = look(f, o.y, Object::RANGE);
		Object * d = o.code == O_RG_ASSIGN ? look(f, o.x, Object::RANGE) : nullptr;
		if (!a || o.x >= 100 || (o.code == O_RG_COPY ? !dst_ok(o.x) : (!d || d->table != a->table || d->kind != a->kind))) { done = false; break; }
		set_ctx(a);
		Object copy = *a;
		void * from = mem_of(f, o.y);
		if (o.code == O_RG_ASSIGN) call(f, [&] { tables[static_cast<size_t>(copy.table)]->range_assign(copy.kind, slot_mem(f->id, o.x), from); });
		else birth(f, o.x), call(f, [&] { tables[static_cast<size_t>(copy.table)]->range_copy(copy.kind, slot_mem(f->id, o.x), from); });
		f->obj[o.x] = copy;
	} break;
	case O_RG_BEGIN: {
		Object * a = look(f, o.y, Object::RANGE);
		if (!a || !dst_ok(o.x)) { done = false; break; }
		set_ctx(a);
		Object copy = *a;
		void * from = mem_of(f, o.y);
		Subject & ss = subject_of(a);
		int ver = ss.version;
		// the characters may have changed since the range was made: the walk is over what is there now
		if (!is_free(ss)) copy.seq = copy.version == ver && copy.seq ? copy.seq : seq_for(ss, tables[static_cast<size_t>(copy.table)], copy.kind);
		birth(f, o.x);
		call(f, [&] { tables[static_cast<size_t>(copy.table)]->range_begin(copy.kind, from, slot_mem(f->id, o.x)); });
		copy.t = Object::IT;
		copy.step = 0;
		copy.version = ver;
		copy.gen = ss.gen;
		copy.free = is_free(ss) || ss.version != ver;
		f->obj[o.x] = copy;
	} break;
	case O_IT_COPY: case O_IT_ASSIGN: {
		Object * a = look(f, o.y, Object::IT);
		Object * d = o.code == O_IT_ASSIGN ? look(f, o.x, Object::IT) : nullptr;
		const bool moved = o.z == 1;
		if (!a || o.x >= 100 || (moved && o.y >= 100)) { done = false; break; }
		if (o.code == O_IT_COPY ? !dst_ok(o.x) : (!d || d->table != a->table || d->kind != a->kind || (moved && d == a))) { done = false; break; }
		const Table * tt = tables[static_cast<size_t>(a->table)];
		set_ctx(a);
		Object copy = *a;
		void * from = mem_of(f, o.y);
		if (o.code == O_IT_COPY) { birth(f, o.x); call(f, [&] { tt->it_copy(copy.kind, o.z, slot_mem(f->id, o.x), from); }); }
		else call(f, [&] { tt->it_assign(copy.kind, o.z, slot_mem(f->id, o.x), from); });
		f->obj[o.x] = copy;
		if (moved) { // moved from: gone
			call(f, [&] { tt->it_drop(copy.kind, from); });
			kill_slot(f, o.y);
		}
	} break;
	case O_IT_INC: case O_IT_POSTINC: case O_IT_WALK: {
		Object * a = look(f, o.x, Object::IT);
		if (!a || o.x >= 100) { done = false; break; }
		if (o.code == O_IT_POSTINC && !dst_ok(o.y)) { done = false; break; }
		const Table * tt = tables[static_cast<size_t>(a->table)];
		set_ctx(a);
		Subject & ss = subject_of(a);
		void * m = mem_of(f, o.x);
		const bool walk = o.code == O_IT_WALK;
		int rounds = walk ? (o.y > 0 ? o.y : 1 << 20) : 1;
		const int limit = static_cast<int>(ss.units.size()) + 2;
		int walked = 0;
		auto ask_end = [&](int how) {
			bool end = false;
			call(f, [&] { end = tt->it_end(a->kind, how, m); });
			return end;
		};
		while (rounds-- > 0) {
			if (stale(a)) a->free = true;
			const bool end = walk || a->free ? ask_end(walked & 3) : false;
			if (stale(a)) a->free = true;
			if (a->free) {
				// no model: consistency only
				if (a->ended && !end && !changed(f, a->subj, a->version)) violate("mismatch", "walk came back to life after its end");
				if (end) {
					a->ended = true;
					if (walk || !G.c->par.past_end) { if (!walk) done = false; break; }
				} else if (walk) {
					rec.clear();
					call(f, [&] { tt->it_read(a->kind, walked & 1, m, &rec, ss.src); });
					check_safe(rec, ss);
					if (!rec.matched) violate("mismatch", "walk shows nothing although it is not at its end");
					if (a->shown && !rec_ok(rec, a->exp)) violate("mismatch", "iterator shows something else than before");
					if (!changed(f, a->subj, a->version)) same_as_before(tt, 10 + a->kind, a->step, final_units(ss), rec);
					if (solo_dump) solo_dump->push_back(exp_of(rec));
					hash_rec(rec);
				}
				if (a->step > limit && !a->ended && !G.c->par.flip) violate("no-progress", "walk exceeded " + std::to_string(limit) + " steps");
				if (walked > 4 * limit) break;
				G.st->free_ops++;
			} else {
				auto at_end = [&] { return a->step >= static_cast<int>(a->seq->size()); };
				if (walk) {
					if (end != at_end()) reconsider(a, ss);
					if (end != at_end()) violate("mismatch", end ? "walk ended after " + std::to_string(a->step) + " of " + std::to_string(a->seq->size()) + " steps" : "walk did not end after its last step " + std::to_string(a->step));
					if (end) break;
					rec.clear();
					call(f, [&] { tt->it_read(a->kind, walked & 1, m, &rec, ss.src); });
					check_safe(rec, ss);
					if (!stale(a)) {
						if (!rec_ok(rec, (*a->seq)[static_cast<size_t>(a->step)])) reconsider(a, ss);
						if (at_end()) violate("mismatch", "walk did not end after its last step " + std::to_string(a->step));
						check_rec(rec, (*a->seq)[static_cast<size_t>(a->step)], ss, ("walk step " + std::to_string(a->step)).c_str());
					}
					hash_rec(rec);
				} else if (at_end() && !G.c->par.past_end) { done = false; break; }
			}
			walked++;
			if (o.code == O_IT_POSTINC) {
				Object copy = *a;
				birth(f, o.y);
				call(f, [&] { tt->it_postinc(copy.kind, m, slot_mem(f->id, o.y)); });
				f->obj[o.y] = copy;
			} else call(f, [&] { tt->it_inc(a->kind, m); });
			G.st->steps++;
			hash_mix(static_cast<uint64_t>(a->step));
			a->shown = false;
			if (changed(f, a->subj, a->version)) a->free = true;
			if (a->free) { if (!a->ended) a->step++; }
			else if (a->step < static_cast<int>(a->seq->size())) a->step++;
		}
		if (walk && o.y <= 0 && o.z && !changed(f, a->subj, a->version)) {
			// the end is permanent
			for (int k = 0; k < o.z; k++) {
				call(f, [&] { tt->it_inc(a->kind, m); });
				G.st->past_end++;
				G.interesting = true;
				const bool end = ask_end(k & 3);
				if (changed(f, a->subj, a->version)) break;
				if (!end) violate("mismatch", "walk came back to life after its end");
			}
			G.st->probes[0]++;
		}
	} break;
	case O_IT_END: {
		Object * a = look(f, o.x, Object::IT);
		if (!a) { done = false; break; }
		set_ctx(a);
		Subject & ss = subject_of(a);
		void * m = mem_of(f, o.x);
		bool end = false;
		call(f, [&] { end = tables[static_cast<size_t>(a->table)]->it_end(a->kind, o.y, m); });
		hash_mix(end);
		if (changed(f, a->subj, a->version)) break;
		if (a->free) {
			if (a->ended && !end) violate("mismatch", "iterator is no longer at its end");
			if (o.x < 100) a->ended = end;
		} else {
			if (end != (a->step >= static_cast<int>(a->seq->size()))) reconsider(a, ss);
			if (end != (a->step >= static_cast<int>(a->seq->size()))) violate("mismatch", std::string("iterator ") + (end ? "at" : "not at") + " its end, step " + std::to_string(a->step) + " of " + std::to_string(a->seq->size()));
		}
	} break;
	case O_IT_EQ: {
		Object * a = look(f, o.x, Object::IT);
		Object * b = look(f, o.y, Object::IT);
		if (!a || !b || a->table != b->table || a->kind != b->kind || a->subj != b->subj) { done = false; break; }
		set_ctx(a);
		void * ma = mem_of(f, o.x), * mb = mem_of(f, o.y);
		int r = 0;
		call(f, [&] { r = tables[static_cast<size_t>(a->table)]->it_eq(a->kind, ma, mb); });
		hash_mix(static_cast<uint64_t>(r));
		if (r != 1 && r != 2) violate("mismatch", "== and != of two iterators agree");
		if (!stale(a) && !stale(b) && a->version == b->version) {
			if ((r == 1) != (a->step == b->step)) { reconsider(a, subject_of(a)); reconsider(b, subject_of(b)); }
			const int n = static_cast<int>(a->seq->size());
			if ((r == 1) != (std::min(a->step, n) == std::min(b->step, n))) violate("mismatch", std::string("iterators at steps ") + std::to_string(a->step) + " and " + std::to_string(b->step) + " of " + std::to_string(n) + (r == 1 ? " compare equal" : " compare different"));
		}
	} break;
	case O_IT_READ: case O_IT_RES: {
		Object * a = look(f, o.x, Object::IT);
		if (!a || (o.code == O_IT_RES && !dst_ok(o.y))) { done = false; break; }
		set_ctx(a);
		Subject & ss = subject_of(a);
		const Table * tt = tables[static_cast<size_t>(a->table)];
		void * m = mem_of(f, o.x);
		const bool model = !a->free && a->seq;
		if (!model) {
			bool end = false;
			call(f, [&] { end = tt->it_end(a->kind, 0, m); });
			if (end) { done = false; break; }
		} else if (a->step >= static_cast<int>(a->seq->size())) { done = false; break; }
		if (o.code == O_IT_READ) {
			call(f, [&] { tt->it_read(a->kind, o.y, m, &rec, ss.src); });
			check_safe(rec, ss);
			// what an iterator shows was found when it got there, and stays
			if (model) {
				if (!rec_ok(rec, (*a->seq)[static_cast<size_t>(a->step)])) reconsider(a, ss);
				if (a->step < static_cast<int>(a->seq->size())) check_rec(rec, (*a->seq)[static_cast<size_t>(a->step)], ss, "iterator");
				else if (rec.matched) violate("mismatch", "iterator is not at its end after the last step");
			} else {
				if (a->shown && !rec_ok(rec, a->exp)) violate("mismatch", "iterator shows something else than before");
				if (o.x < 100) { a->shown = true; a->exp = exp_of(rec); }
			}
			hash_rec(rec);
		} else {
			birth(f, o.y);
			call(f, [&] { tt->it_result(a->kind, m, slot_mem(f->id, o.y)); tt->res_read(0, slot_mem(f->id, o.y), &rec, ss.src); });
			check_safe(rec, ss);
			Object & x = f->obj[o.y];
			x.t = Object::RES; x.table = a->table; x.subj = a->subj; x.version = ss.version; x.gen = ss.gen; x.exp = exp_of(rec);
			if (model) {
				if (!rec_ok(rec, (*a->seq)[static_cast<size_t>(a->step)])) reconsider(a, ss);
				if (a->step < static_cast<int>(a->seq->size())) check_rec(rec, (*a->seq)[static_cast<size_t>(a->step)], ss, "result taken from an iterator");
				else if (rec.matched) violate("mismatch", "iterator is not at its end after the last step");
			}
			hash_rec(rec);
		}
	} break;
	case O_DROP: {
		if (o.x < 0 || o.x >= slots_per_client || f->obj[o.x].t == Object::NONE) { done = false; break; }
		Object x = f->obj[o.x];
		const Table * tt = tables[static_cast<size_t>(x.table)];
		void * m = slot_mem(f->id, o.x);
		call(f, [&] {
			switch (x.t) {
			case Object::RES: tt->res_drop(m); break;
			case Object::RANGE: tt->range_drop(x.kind, m); break;
			case Object::IT: tt->it_drop(x.kind, m); break;
			case Object::PRANGE: tt->pipe_drop(0, x.kind, m); break;
			case Object::PIT: tt->pipe_drop(1, x.kind, m); break;
			default: break;
			}
		});
		kill_slot(f, o.x);
	} break;
	case O_EDIT: {
		// the owner of the characters replaces them while nobody is looking
		if (o.subj < 0 || static_cast<size_t>(o.subj) >= G.subjects.size()) { done = false; break; }
		Subject & ss = G.subjects[static_cast<size_t>(o.subj)];
		bool used = ss.spec->is_source || ss.spec->cls == CL_STREAM;
		for (int i = 0; i < G.nclients && !used; i++) {
			const Fiber & k = G.f[i];
			if (k.st != FS_RUN && k.st != FS_BLOCKED) continue;
			for (int u : k.use) used |= u == o.subj;
		}
		if (used || !edit_subject(ss, o.text)) { G.st->edits_refused++; done = false; break; }
		G.st->edits++;
		G.interesting = true;
		for (uint32_t u : o.text) hash_mix(u);
	} break;
	case O_P_MAKE: {
		if (o.table < 0 || o.subj < 0 || static_cast<size_t>(o.subj) >= G.subjects.size() || !dst_ok(o.x)) { done = false; break; }
		t = tables[static_cast<size_t>(o.table)];
		s = &G.subjects[static_cast<size_t>(o.subj)];
		if (!s->spec->is_source || !t->pipe_make) { done = false; break; }
		Object x;
		x.t = Object::PRANGE; x.table = o.table; x.subj = o.subj; x.kind = o.y;
		x.seq = std::make_shared<Walk>();
		for (int i = 0; i < s->stream.final_len; i++) {
			auto pc = s->stream.pieces[static_cast<size_t>(i)];
			SubjectSpec plain;
			std::vector<uint32_t> u(s->units.begin() + pc.first, s->units.begin() + pc.first + pc.second);
			Text tx = decode(plain, u);
			Exp e = model_eval(pattern_of(t->pattern), o.y, tx, 0, static_cast<int>(u.size()));
			G.st->model_calls++;
			x.seq->pieces.push_back(u);
			if (!e.matched) continue;
			for (auto & c : e.caps) if (c.on) { c.b += pc.first; c.e += pc.first; }
			x.seq->s.push_back(e);
			x.seq->where.push_back(i);
		}
		birth(f, o.x);
		call(f, [&] { t->pipe_make(o.y, slot_mem(f->id, o.x), &s->stream); });
		f->obj[o.x] = x;
		G.st->patterns.insert(t->pattern);
	} break;
	case O_P_BEGIN: case O_P_COPY: case O_P_ASSIGN: case O_P_INC: case O_P_POSTINC: case O_P_END: case O_P_EQ: case O_P_READ: case O_P_WALK: {
		const int rslot = o.code == O_P_BEGIN || o.code == O_P_COPY || o.code == O_P_ASSIGN ? o.y : o.x;
		Object * a = look(f, rslot, o.code == O_P_BEGIN ? Object::PRANGE : Object::PIT);
		if (!a) { done = false; break; }
		const Table * tt = tables[static_cast<size_t>(a->table)];
		Subject & ss = subject_of(a);
		f->op_subj = -1;
		void * ma = mem_of(f, rslot);
		auto target = [&](int step) { return step < static_cast<int>(a->seq->where.size()) ? a->seq->where[static_cast<size_t>(step)] : ss.stream.final_len; };
		auto guard = [&](int step, auto && fn) {
			// nothing beyond the subject of that step may be asked for by this caller
			f->watch = &ss.stream;
			f->touched = -1;
			fn();
			f->watch = nullptr;
			if (f->touched > target(step)) reconsider(a, ss);
			return f->touched <= target(step);
		};
		auto size = [&] { return static_cast<int>(a->seq->size()); };
		auto end_ok = [&](bool end) { if (end != (a->step >= size())) reconsider(a, ss); return end == (a->step >= size()); };
		auto piped = [&] {
			check_safe(rec, ss);
			if (a->step >= size() || !rec_ok(rec, (*a->seq)[static_cast<size_t>(a->step)])) reconsider(a, ss);
			if (a->step >= size()) violate("mismatch", "more results than matching subjects");
			check_rec(rec, (*a->seq)[static_cast<size_t>(a->step)], ss, "piped result");
			hash_rec(rec);
		};
		auto ahead = [&](bool ok) { if (!ok) violate("read-ahead", "source touched at " + std::to_string(f->touched) + " to get the result of step " + std::to_string(a->step)); };
		switch (o.code) {
		case O_P_BEGIN: {
			if (!dst_ok(o.x)) { done = false; break; }
			Object x = *a;
			x.t = Object::PIT;
			x.step = 0;
			birth(f, o.x);
			bool ok = guard(0, [&] { call(f, [&] { tt->pipe_begin(x.kind, ma, slot_mem(f->id, o.x)); }); });
			ahead(ok);
			f->obj[o.x] = x;
		} break;
		case O_P_COPY: case O_P_ASSIGN: {
			Object * d = o.code == O_P_ASSIGN ? look(f, o.x, Object::PIT) : nullptr;
			const bool moved = o.z == 1;
			if (o.x >= 100 || (moved && (o.y >= 100 || d == a)) || (o.code == O_P_COPY ? !dst_ok(o.x) : (!d || d->table != a->table || d->kind != a->kind))) { done = false; break; }
			Object x = *a;
			if (o.code == O_P_COPY) { birth(f, o.x); call(f, [&] { tt->pipe_copy(x.kind, o.z, slot_mem(f->id, o.x), ma); }); }
			else call(f, [&] { tt->pipe_assign(x.kind, o.z, slot_mem(f->id, o.x), ma); });
			f->obj[o.x] = x;
			if (moved) { // moved from: gone
				call(f, [&] { tt->pipe_drop(1, x.kind, ma); });
				kill_slot(f, o.y);
			}
		} break;
		case O_P_INC: case O_P_POSTINC: {
			if (a->step >= size() || o.x >= 100 || (o.code == O_P_POSTINC && !dst_ok(o.y))) { done = false; break; }
			Object old = *a;
			bool ok;
			if (o.code == O_P_INC) ok = guard(a->step + 1, [&] { call(f, [&] { tt->pipe_inc(a->kind, ma); }); });
			else { birth(f, o.y); ok = guard(a->step + 1, [&] { call(f, [&] { tt->pipe_postinc(a->kind, ma, slot_mem(f->id, o.y)); }); }); f->obj[o.y] = old; }
			ahead(ok);
			a->step++;
			G.st->steps++;
		} break;
		case O_P_END: {
			Object * rg = look(f, o.y, Object::PRANGE);
			if (!rg || rg->table != a->table || rg->kind != a->kind) { done = false; break; }
			bool end = false;
			void * mr = mem_of(f, o.y);
			bool ok = guard(a->step, [&] { call(f, [&] { end = tt->pipe_end(a->kind, o.z, ma, mr); }); });
			ahead(ok);
			hash_mix(end);
			if (!end_ok(end)) violate("mismatch", std::string("piped iterator ") + (end ? "at" : "not at") + " its end at step " + std::to_string(a->step) + " of " + std::to_string(size()) + " (comparison form " + std::to_string(o.z) + ")");
		} break;
		case O_P_EQ: {
			Object * b = look(f, o.y, Object::PIT);
			if (!b || b->table != a->table || b->kind != a->kind || b->subj != a->subj) { done = false; break; }
			int r = 0;
			void * mb = mem_of(f, o.y);
			call(f, [&] { r = tt->pipe_eq(a->kind, ma, mb); });
			if (r != (a->step == b->step ? 1 : 2)) violate("mismatch", "piped iterators at steps " + std::to_string(a->step) + " and " + std::to_string(b->step) + ": comparison gives " + std::to_string(r));
		} break;
		case O_P_READ: {
			if (a->step >= size()) { done = false; break; }
			bool ok = guard(a->step, [&] { call(f, [&] { tt->pipe_read(a->kind, o.y, ma, &rec, reinterpret_cast<const char *>(ss.raw)); }); });
			ahead(ok);
			piped();
		} break;
		case O_P_WALK: {
			if (o.x >= 100) { done = false; break; }
			Object * rg = look(f, o.y, Object::PRANGE);
			if (!rg || rg->table != a->table || rg->kind != a->kind) { done = false; break; }
			void * mr = mem_of(f, o.y);
			for (int k = 0;; k++) {
				bool end = false;
				bool ok = guard(a->step, [&] { call(f, [&] { end = tt->pipe_end(a->kind, (o.z + k) & 3, ma, mr); }); });
				ahead(ok);
				if (!end_ok(end)) violate("mismatch", std::string("piped walk ") + (end ? "ended" : "did not end") + " at step " + std::to_string(a->step) + " of " + std::to_string(size()) + " (comparison form " + std::to_string((o.z + k) & 3) + ")");
				if (end) break;
				rec.clear();
				call(f, [&] { tt->pipe_read(a->kind, k % 3, ma, &rec, reinterpret_cast<const char *>(ss.raw)); });
				piped();
				ok = guard(a->step + 1, [&] { call(f, [&] { tt->pipe_inc(a->kind, ma); }); });
				ahead(ok);
				a->step++;
				G.st->steps++;
			}
		} break;
		default: break;
		}
	} break;
	default: done = false;
	}
	f->in_lib = false;
	f->busy = was_busy;
	f->use[f->depth] = -1;
	if (done) {
		G.st->ops++;
		G.st->opcount[o.code]++;
		hash_mix(static_cast<uint64_t>(o.code) * 31 + static_cast<uint64_t>(f->id));
		hash_mix(f->tick);
	} else G.st->skipped++;
	uint64_t total = f->tick + static_cast<uint64_t>(f->optotal);
	G.st->ticks += total;
	G.now += total;
	if (total > G.st->max_op_ticks) G.st->max_op_ticks = total;
}

static std::string bytes_of(const std::vector<uint32_t> & u, long b, long e) {
	std::string s;
	for (long i = b; i < e; i++) s.push_back(static_cast<char>(u[static_cast<size_t>(i)]));
	return s;
}

static void convert_check(Fiber * f, const OpSpec & o, Object * a, void * mem, Rec & rec) {
	const Table * t = tables[static_cast<size_t>(a->table)];
	Subject & s = G.subjects[static_cast<size_t>(a->subj)];
	const int ncap = t->ncaps;
	const int cap = o.y % ncap;
	// what did not match converts to nothing, or to an empty text where there has to be one
	const Cap c = a->exp.matched && static_cast<size_t>(cap) < a->exp.caps.size() ? a->exp.caps[static_cast<size_t>(cap)] : Cap{false, 0, 0};
	const int what = o.z;
	if (!t->res_conv) return;
	if (what == CV_OSTREAM) {
		const int form = t->form;
		if (form_class(form) != CL_NARROW) return;
		// fx: bits 0..3 width/3, 4..5 adjustment, 6 fill, 7 exceptions, 8..11 buffer, 12..13 mode
		SinkBuf sb((o.fx >> 8) & 15);
		std::ostream os(&sb);
		const int width = (o.fx & 15) * 3;
		os.width(width);
		const int adj = (o.fx >> 4) & 3;
		if (adj == 1) os.setf(std::ios::left, std::ios::adjustfield);
		if (adj == 2) os.setf(std::ios::right, std::ios::adjustfield);
		if (adj == 3) os.setf(std::ios::internal, std::ios::adjustfield);
		const char fill = (o.fx >> 6) & 1 ? '*' : ' ';
		os.fill(fill);
		const bool exc = (o.fx >> 7) & 1;
		if (exc) os.exceptions(std::ios::badbit | std::ios::failbit);
		std::string body = c.on ? bytes_of(s.units, c.b, c.e) : std::string();
		std::string full = body;
		if (static_cast<int>(full.size()) < width) {
			std::string pad(static_cast<size_t>(width) - full.size(), fill);
			full = adj == 1 ? full + pad : pad + full;
		}
		sb.mode = (o.fx >> 12) & 3;
		if (o.fk == FK_SINK) sb.fail_at = o.fn % (static_cast<int>(full.size()) + 3);
		bool threw = false, other = false;
		f->in_lib = true;
		try {
			t->res_conv(what, cap, mem, &rec, &os, s.src);
			f->in_lib = false;
		} catch (const std::ios_base::failure &) {
			f->in_lib = false;
			threw = true;
		} catch (const SimFault &) {
			f->in_lib = false;
			threw = true;
			if (sb.mode != 1) other = true;
		} catch (...) {
			f->in_lib = false;
			other = true;
		}
		if (other) violate("escape", "stream insertion threw something the stream did not ask for");
		if (f->allocs && !threw && G.c->par.no_alloc) violate("alloc", "stream insertion allocated memory");
		if (threw && !exc) violate("escape", "stream insertion threw although the stream has no exceptions enabled");
		const bool bad = os.rdstate() & (std::ios::badbit | std::ios::failbit);
		if (sb.faulted) {
			if (!bad) violate("sink", "the stream buffer failed after " + std::to_string(sb.got.size()) + " characters but the stream reports success");
			if (exc && !threw) violate("sink", "the stream buffer failed but no exception was thrown although enabled");
			if (full.compare(0, sb.got.size(), sb.got) != 0) violate("sink", "what reached the failing stream buffer is no prefix of the text");
			G.st->probes[1]++;
		} else {
			if (bad || threw) violate("sink", "healthy stream reports failure");
			// the buffered part is delivered on flush; it may fail then, which is not the insertion's business
			std::string have = sb.got + (sb.bufsize ? std::string(sb.buf, static_cast<size_t>(sb.bufsize)).substr(0, static_cast<size_t>(0)) : std::string());
			struct Peek : SinkBuf { static std::string rest(SinkBuf & b) { auto & p = static_cast<Peek &>(b); return std::string(p.pbase() ? p.pbase() : "", static_cast<size_t>(p.pptr() - p.pbase())); } };
			have += Peek::rest(sb);
			if (have != full) violate("sink", "stream received '" + have + "' instead of '" + full + "'");
			if (os.width() != 0) violate("sink", "field width not reset by the insertion");
			G.st->probes[2]++;
		}
		for (char ch : sb.got) hash_mix(static_cast<unsigned char>(ch));
		hash_mix(static_cast<uint64_t>(os.rdstate()));
		if (sb.faulted) { // retry on a healthy stream
			SinkBuf sb2(0);
			std::ostream os2(&sb2);
			f->fired = false;
			f->in_lib = true;
			try { t->res_conv(what, cap, mem, &rec, &os2, s.src); } catch (...) { f->in_lib = false; violate("escape", "retry of the insertion threw"); }
			f->in_lib = false;
			if (sb2.got != body || !os2.good()) violate("sink", "retry on a healthy stream gave '" + sb2.got + "' instead of '" + body + "'");
		}
		return;
	}
	const bool owning = what == CV_STRING || what == CV_OPT_STRING || what == CV_STR_CAST || what == CV_STR || what == CV_OPT_CAST;
	const bool relaxed = owning;
	f->in_lib = true;
	try { t->res_conv(what, cap, mem, &rec, nullptr, s.src); } catch (...) { f->in_lib = false; violate("escape", "an exception left the conversion"); }
	f->in_lib = false;
	if (f->fired && f->fk == FK_ALLOC) violate("survived", "conversion returned although its allocation failed");
	if (f->fired && f->fk == FK_THROW) violate("survived", "conversion returned although the subject iterator failed");
	if (!relaxed && f->allocs) violate("alloc", "non-owning conversion allocated memory");
	std::vector<uint32_t> want;
	if (c.on) want.assign(s.units.begin() + c.b, s.units.begin() + c.e);
	const bool optional = what == CV_OPT_STRING || what == CV_OPT_CAST || what == CV_VIEW || what == CV_VIEW2;
	if (!c.on) {
		for (auto & v : rec.texts) if (!v.empty()) violate("bad-text", "what did not match converts to some text");
		std::vector<long> none = optional ? std::vector<long>{-1} : what == CV_SIZE || what == CV_NUMBER ? std::vector<long>{0} : what == CV_NUMBERS ? std::vector<long>{0, 0, 0, 0} : std::vector<long>{};
		if (what == CV_COMPARE || what == CV_COMPARE_ALL) { if (!rec.longs.empty() && rec.longs[0] & 5) violate("bad-text", "what did not match compares equal to some text"); }
		else if (!rec.longs.empty() && rec.longs != none) violate("bad-text", "what did not match converts to some value");
		G.st->probes[3]++;
		return;
	}
	switch (what) {
	case CV_OPT_CAST: case CV_OPT_STRING: case CV_STR: case CV_ITERATE: case CV_STRING: if (rec.texts.empty() && want.empty()) break; if (rec.texts.size() != 1 || rec.texts[0] != want) violate("bad-text", "converted string differs from the matched characters"); break;
	case CV_STR_CAST: if (!rec.texts.empty() && rec.texts[0] != want) violate("bad-text", "converted string differs from the matched characters"); break;
	case CV_VIEW: if (!rec.texts.empty() && (rec.texts[0] != want || rec.longs[0] != c.e - c.b)) violate("bad-text", "view differs from the matched characters"); break;
	case CV_DATA: if (!rec.texts.empty() && rec.texts[0] != want) violate("bad-text", "the characters at data() differ from the matched ones"); break;
	case CV_VIEW2: for (auto & v : rec.texts) if (v != want) violate("bad-text", "view differs from the matched characters");
		if (!rec.longs.empty()) violate("bad-text", "optional view of a match is empty");
		break;
	case CV_COMPARE_ALL: if (!rec.longs.empty()) {
			if (rec.longs[0] != (want == s.units ? 5 : 10)) violate("bad-text", "comparison of a capture with the whole subject is wrong");
		}
		break;
	case CV_NUMBER: case CV_NUMBERS: if (!rec.longs.empty()) {
			const std::string d = bytes_of(s.units, c.b, c.e);
			long l = 0, q = 0; int i = 0; unsigned char u = 0;
			std::from_chars(d.data(), d.data() + d.size(), l);
			std::from_chars(d.data(), d.data() + d.size(), i);
			std::from_chars(d.data(), d.data() + d.size(), u, 16);
			std::from_chars(d.data(), d.data() + d.size(), q, 8);
			if (what == CV_NUMBER ? rec.longs != std::vector<long>{l} : rec.longs != std::vector<long>{i, u, 1, q}) violate("bad-text", "number differs from the one spelled by the matched characters");
		}
		break;
	case CV_SIZE: if (rec.longs.size() != 1 || rec.longs[0] != c.e - c.b) violate("bad-text", "size differs from the matched length"); break;
	case CV_COMPARE: if (!rec.longs.empty() && rec.longs[0] != 1) violate("bad-text", "capture does not compare equal to its own text"); break;
	default: break;
	}
	G.st->probes[3]++;
}

// ================================================================ fibers and the main loop
static void fiber_body() {
	Fiber * f = G.cur;
	f->st = FS_RUN;
	const std::vector<OpSpec> & ops = f->id == shared_client ? G.c->setup : f->spec->ops;
	while (f->next_op < ops.size()) {
		size_t k = f->next_op++;
		f->nest = 0;
		exec_op(f, ops[k], static_cast<int>(k));
		if (f->id == shared_client) continue;
		// an operation boundary is a scheduling point as well
		f->tick = boundary;
		if (G.c->replay) scripted(f, boundary);
		else if (G.c->par.opsw && static_cast<int>(G.rng.below(256)) < G.c->par.opsw) random_event(f, true);
	}
	f->st = FS_DONE;
	leave_forever();
}

static void start_fiber(Fiber * f) {
	uintptr_t top = f->hi - 64;
	top &= ~static_cast<uintptr_t>(15);
	void ** sp = reinterpret_cast<void **>(top);
	*--sp = nullptr;
	*--sp = reinterpret_cast<void *>(&fiber_body);
	for (int i = 0; i < 6; i++) *--sp = nullptr;
	f->sp = sp;
	f->eh[0] = f->eh[1] = 0;
	f->in_lib = false;
	f->depth = 0;
	f->op = -1;
	f->tick = 0;
	f->op_subj = -1;
	f->countdown = 1L << 60;
	f->busy = 0;
	for (int & u : f->use) u = -1;
	f->watch = nullptr;
	f->tls = tls_image;
	f->st = FS_NEW;
}

static void resume(Fiber * f) {
	uint64_t * eh = static_cast<uint64_t *>(__cxa_get_globals());
	G.main_eh[0] = eh[0]; G.main_eh[1] = eh[1];
	eh[0] = f->eh[0]; eh[1] = f->eh[1];
	if (tls_size) memcpy(tls_mem, f->tls.data(), tls_size); // every caller is a thread of its own
	G.cur = f;
	sim_switch(&G.main_sp, f->sp);
	G.cur = nullptr;
}

static void lose_objects(Fiber * f) {
	for (int i = 0; i < slots_per_client; i++) if (slot_st(f->id, i) != SS_FREE) kill_slot(f, i);
}

static void on_terminate() {
	Fiber * f = G.cur;
	if (!f) { fprintf(stderr, "terminate outside of a client\n"); _exit(9); }
	f->in_lib = false;
	if (!f->fired) violate("terminate", "operation terminated the program without any failure");
	G.st->terminated++;
	f->terminated = true;
	f->st = FS_DEAD;
	hash_mix(0x7E41);
	leave_forever();
}

static void deliver(Stream & s) {
	while (!s.eof && s.next_time <= G.now) {
		if (s.next_chunk >= s.spec->chunks.size()) { s.delivered = s.final_len; s.eof = true; break; }
		const Chunk & c = s.spec->chunks[s.next_chunk++];
		s.delivered = std::min(s.final_len, s.delivered + c.count);
		G.st->chunks++;
		s.next_time = s.next_chunk < s.spec->chunks.size() ? G.now + s.spec->chunks[s.next_chunk].delay : G.now + 1;
	}
}

static void setup_subject(Subject & s, const SubjectSpec & spec, size_t idx) {
	s.spec = &spec;
	s.version = s.gen = s.place = 0;
	s.text_version = -1;
	s.units = spec.units;
	if (spec.units.size() > G.st->longest) G.st->longest = spec.units.size();
	const size_t us = static_cast<size_t>(unit_size(spec.cls));
	size_t bytes = (spec.units.size() + (spec.zt ? 1 : 0)) * us;
	unsigned char * b = subj_mem + idx * subj_stride + page;
	unsigned char * p = spec.place == 0 ? b + subj_area - bytes : b;
	s.raw = p;
	subj_lo[idx] = reinterpret_cast<uintptr_t>(p);
	subj_hi[idx] = subj_lo[idx] + bytes;
	for (size_t i = 0; i < s.units.size(); i++) write_unit(s, i, s.units[i]);
	if (spec.zt) memset(p + s.units.size() * us, 0, us);
	Stream & st = s.stream;
	st.spec = &spec;
	st.text = spec.units;
	if (spec.is_source) {
		s.stream.pieces.clear();
		s.stream.elements.clear();
		s.stream.base = reinterpret_cast<const char *>(p);
		s.stream.self = &s.stream;
		int at = 0;
		for (int c : spec.cuts) {
			s.stream.pieces.push_back({at, c - at});
			s.stream.elements.push_back({s.stream.base + at, s.stream.base + c, false});
			at = c;
		}
		st.final_len = static_cast<int>(s.stream.pieces.size());
	} else st.final_len = static_cast<int>(spec.units.size());
	if (spec.eof_at >= 0 && spec.eof_at < st.final_len) { st.final_len = spec.eof_at; G.st->eofs++; }
	st.next_chunk = 0;
	if (spec.chunks.empty()) { st.delivered = st.final_len; st.eof = true; st.next_time = 0; }
	else { st.delivered = 0; st.eof = false; st.next_time = spec.chunks[0].delay; }
	s.src = Src{src_ptr(s), s.units.size(), &st};
	fill_neighbours(s, spec.fill);
	if (spec.free_model) { G.st->malformed++; G.interesting = true; }
}

static bool wakeup(Fiber & f) {
	if (f.st == FS_BLOCKED && (f.waiting->eof || f.waiting->delivered > f.waiting_pos)) { f.st = FS_RUN; return true; }
	return false;
}

static void drive(int first, int last) {
	// run clients [first, last) to completion
	int prev = -1;
	(void)first; (void)last;
	for (;;) {
		if (G.stop) return;
		for (auto & s : G.subjects) deliver(s.stream);
		for (int i = 0; i < G.nclients; i++) {
			Fiber & f = G.f[i];
			wakeup(f);
			if (f.st == FS_DEAD && (G.c->par.restart || f.terminated)) {
				// what the caller owned is lost, what it was doing is never finished; it starts again with its next operation
				f.terminated = false;
				lose_objects(&f);
				start_fiber(&f);
				G.st->restarts++;
			}
		}
		int n = G.next;
		G.next = -1;
		if (n < 0 || n >= G.nclients || !runnable(G.f[n])) {
			// forced choice: somebody finished, blocked or died
			n = -1;
			Fiber * pf = prev >= 0 ? &G.f[prev] : nullptr;
			if (G.c->replay) {
				if (pf) for (auto & e : pf->script) if (e.kind == EV_PICK && e.op == pf->op && e.nest == pf->nest && e.tick == pf->tick) { n = e.a; if (n >= 0 && n < G.nclients && runnable(G.f[n])) e.op = -99; break; } // each choice is used once
				if (n < 0 || n >= G.nclients || !runnable(G.f[n])) {
					n = -1;
					for (int k = 0; k < G.nclients; k++) { int i = (prev + 1 + k + G.nclients) % G.nclients; if (runnable(G.f[i])) { n = i; break; } }
				}
				if (pf && n >= 0) note_event(pf, EV_PICK, n, 0);
			} else {
				n = random_runnable(-1);
				if (pf && n >= 0) note_event(pf, EV_PICK, n, 0);
				// the very first pick is made by client 0 so that a replay needs no extra state
				if (!pf && n >= 0) n = runnable(G.f[0]) ? 0 : n;
			}
		}
		if (n < 0) {
			// nobody can run: jump to the next delivery
			bool waiting = false;
			uint64_t t = ~0ull;
			for (int i = 0; i < G.nclients; i++) if (G.f[i].st == FS_BLOCKED) { waiting = true; if (!G.f[i].waiting->eof) t = std::min(t, G.f[i].waiting->next_time); }
			if (!waiting) return;
			if (t == ~0ull) { violate("no-progress", "a caller is blocked and nothing is left to be delivered"); return; }
			if (t > G.now) { G.st->idle += t - G.now; G.now = t; }
			continue;
		}
		prev = n;
		resume(&G.f[n]);
	}
}

static bool memory_ready = false;

RunResult run_case(const Case & c, Stats & st) {
	if (!memory_ready) { setup_memory(); memory_ready = true; std::set_terminate(on_terminate); }
	restore_statics();
	G.seen.clear();
	G.run_serial = G.run_serial + 1;
	G.c = &c;
	G.st = &st;
	G.cur = nullptr;
	G.now = 0;
	G.next = -1;
	G.rng.reseed(Rng::mix(c.seed) ^ Rng::mix(c.index * 2 + 1) ^ 0x5C4ED);
	G.res = RunResult{};
	G.crashes = 0;
	G.ilhash = 0;
	G.interesting = G.matched_any = false;
	G.stop = false;
	G.nclients = std::min<int>(static_cast<int>(c.clients.size()), max_clients - 1);
	G.subjects.clear();
	G.subjects.resize(std::min<size_t>(c.subjects.size(), max_subjects));
	for (size_t i = 0; i < G.subjects.size(); i++) setup_subject(G.subjects[i], c.subjects[i], i);
	for (size_t i = G.subjects.size(); i < max_subjects; i++) subj_lo[i] = subj_hi[i] = 0;
	for (auto & x : slot_state) x = SS_FREE;
	static const ClientSpec none;
	for (int i = 0; i < max_clients; i++) {
		Fiber & f = G.f[i];
		f.id = i;
		f.lo = reinterpret_cast<uintptr_t>(stack_mem) + static_cast<size_t>(i) * stack_stride + page;
		f.hi = f.lo + stack_size;
		f.spec = i < G.nclients ? &c.clients[static_cast<size_t>(i)] : &none;
		f.next_op = 0;
		f.nest = f.irq_used = 0;
		f.fired = f.terminated = false;
		f.fk = 0;
		f.waiting = nullptr;
		for (auto & o : f.obj) o = Object{};
		f.script.clear();
		start_fiber(&f);
	}
	for (auto & e : c.events) if (e.client >= 0 && e.client < max_clients) G.f[e.client].script.push_back(e);
	for (int i = 0; i < G.nclients; i++) std::stable_sort(G.f[i].script.begin(), G.f[i].script.end(), [](const Event & a, const Event & b) { return a.tick < b.tick; });

	if (!c.setup.empty()) {
		// shared objects are made before anybody runs, undisturbed
		int n = G.nclients;
		Params keep = c.par;
		Params quiet = keep;
		quiet.preempt = quiet.seam = quiet.statics = 0;
		const_cast<Case &>(c).par = quiet;
		Fiber & f = G.f[shared_client];
		while (!G.stop && (f.st == FS_NEW || f.st == FS_RUN)) resume(&f);
		const_cast<Case &>(c).par = keep;
		G.nclients = n;
	}
	drive(0, G.nclients);
	st.runs++;
	st.simns += G.now;
	hash_mix(G.now);
	hash_mix(G.res.v.on ? 1 : 2);
	if (G.interesting && G.matched_any) { st.nontrivial++; if (st.cases.size() < 4000000) st.cases.insert(G.res.hash); }
	if (st.interleavings.size() < 4000000) st.interleavings.insert(G.ilhash);
	return G.res;
}

// ================================================================ crashes and hangs of the run itself
extern void report_fatal(const char * cls, const char * detail);

static void on_signal(int sig, siginfo_t * si, void *) {
	const char * cls = "crash";
	char b[128];
	uintptr_t a = reinterpret_cast<uintptr_t>(si->si_addr);
	snprintf(b, sizeof b, "signal %d", sig);
	if (sig == SIGSEGV || sig == SIGBUS) {
		if (a - reinterpret_cast<uintptr_t>(subj_mem) < subj_total) { cls = "oob-read"; snprintf(b, sizeof b, "access to the guard page next to a subject"); }
		else if (a - reinterpret_cast<uintptr_t>(stack_mem) < stack_total) { cls = "no-progress"; snprintf(b, sizeof b, "stack exhausted by unbounded recursion"); }
	}
	report_fatal(cls, b);
	_exit(5);
}
static uint64_t last_serial;
static int same;
static void on_timer(int) {
	if (G.run_serial == last_serial) { if (++same >= 3) { report_fatal("no-progress", "run used seconds of processor time without an end"); _exit(5); } }
	else { last_serial = G.run_serial; same = 0; }
}
void install_handlers() {
	static char alt[1 << 16];
	stack_t ss{};
	ss.ss_sp = alt;
	ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa{};
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
	struct sigaction st{};
	st.sa_handler = on_timer;
	st.sa_flags = SA_ONSTACK | SA_RESTART;
	sigaction(SIGVTALRM, &st, nullptr);
	struct itimerval it{{2, 0}, {2, 0}};
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
std::string fatal_context() { return G.cur ? where_am_i() : std::string(); }
const RunResult & partial_result() { return G.res; }
