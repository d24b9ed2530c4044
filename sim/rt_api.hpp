// Interface between the instrumented side (library code plus thin adapters)
// and the simulator runtime.  Nothing in here is templated on the library.
#pragma once
#include <cstddef>
#include <cstdint>

struct Stream;    // a subject delivered by the simulator
struct Rec;       // recorded outcome of one operation
struct Source;    // a live source of many subjects

struct Src {                 // where a subject lives
	const void * data;       // first code unit (contiguous forms)
	size_t len;              // in code units
	Stream * stream;         // iterator forms
};

extern "C" {
// checked subject iterator operations
uint32_t sim_deref(const Stream *, int pos);
void sim_inc(const Stream *, int pos);
void sim_dec(const Stream *, int pos);
bool sim_at_end(const Stream *, int pos);
void sim_cmp(const Stream *, const Stream *);
void sim_jump(const Stream *, int pos, long by); // random access
int  sim_length(const Stream *);          // position of the explicit end iterator (complete subjects only)
// checked source of subjects
struct SvRaw { const char * p; size_t n; };
SvRaw src_deref(const Source *, int pos);
const void * src_element(const Source *, int pos); // the container which is that subject
const void * src_range(const Source *);            // the source as an object which stays
void src_inc(const Source *, int pos);
bool src_at_end(const Source *, int pos);
// recording
void rec_begin(Rec *, bool matched, int ncaps);
void rec_cap(Rec *, int i, bool matched, long b, long e, bool foreign);
void rec_long(Rec *, long v);
void rec_text(Rec *, const void * units, size_t n, int unit_size);
void rec_char(Rec *, uint32_t c);
// marks around library calls (allocation accounting)
void lib_enter();
void lib_leave();
}

enum Method { M_MATCH, M_SEARCH, M_STARTS };
enum Kind { K_ALL, K_SPLIT, K_TOK, K_ITER, K_N };

struct Table {               // one pattern on one subject form
	int pattern, form, mode;
	int ncaps;
	int evals, lazies, conv, pipe;   // what was compiled in (bit masks)
	size_t res_size, range_size, it_size[3], pipe_range_size, pipe_it_size;
	// direct evaluation; the result object is built in *mem
	void (*res_make)(int method, int how, void * mem, const Src &);
	void (*res_read)(int how, const void * mem, Rec *, const Src &);
	void (*res_copy)(int how, void * dst, void * src);
	void (*res_assign)(int how, void * dst, void * src);
	void (*res_drop)(void * mem);
	void (*res_conv)(int what, int cap, const void * mem, Rec *, void * os, const Src &);
	// lazy walks; kind 0..2
	void (*range_make)(int kind, int how, void * mem, const Src &);
	void (*range_copy)(int kind, void * dst, const void * src);
	void (*range_assign)(int kind, void * dst, const void * src);
	void (*range_drop)(int kind, void * mem);
	void (*range_begin)(int kind, const void * range, void * it);
	void (*it_make)(int kind, int how, void * it, const Src &);   // from temporaries only
	void (*it_copy)(int kind, int how, void * dst, void * src);
	void (*it_assign)(int kind, int how, void * dst, void * src);
	void (*it_drop)(int kind, void * it);
	void (*it_inc)(int kind, void * it);
	void (*it_postinc)(int kind, void * it, void * prev);
	bool (*it_end)(int kind, int how, const void * it);
	int  (*it_eq)(int kind, const void * a, const void * b);      // bit0 ==, bit1 !=
	void (*it_read)(int kind, int how, const void * it, Rec *, const Src &);
	void (*it_result)(int kind, const void * it, void * resmem);  // copy *it into a result object
	// many subjects through the pipe
	void (*pipe_make)(int method, void * mem, const Source *);
	void (*pipe_begin)(int method, const void * range, void * it);
	void (*pipe_copy)(int method, int how, void * dst, void * src);
	void (*pipe_assign)(int method, int how, void * dst, void * src);
	void (*pipe_inc)(int method, void * it);
	void (*pipe_postinc)(int method, void * it, void * prev);
	bool (*pipe_end)(int method, int how, const void * it, const void * range);
	int  (*pipe_eq)(int method, const void * a, const void * b);
	void (*pipe_read)(int method, int how, const void * it, Rec *, const char * base);
	void (*pipe_drop)(int what, int method, void * mem);
};

enum Form { F_PTR, F_ZT, F_SV, F_BIDI_S, F_BIDI, F_FWD_S, F_U8, F_U32, F_U16, F_W, F_WZT, F_RANGE, F_RA, F_SPAN, F_N };
enum Conv { CV_STRING, CV_VIEW, CV_NUMBER, CV_OSTREAM, CV_STR_CAST, CV_OPT_STRING, CV_COMPARE, CV_SIZE, CV_STR, CV_VIEW2, CV_OPT_CAST, CV_ITERATE, CV_DATA, CV_COMPARE_ALL, CV_NUMBERS, CV_N };

void register_table(const Table *);
