// Reference model: PCRE2 on 32-bit code units decides single evaluations, and a
// few lines of plain code on top of it decide the three kinds of walk.
#define PCRE2_CODE_UNIT_WIDTH 32
#include <pcre2.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include "sim.hpp"

static pcre2_code * compiled(const Pattern & p) {
	static std::unordered_map<int, pcre2_code *> cache;
	auto it = cache.find(p.id);
	if (it != cache.end()) return it->second;
	std::vector<uint32_t> t;
	for (const char * c = p.model ? p.model : p.text; *c; ++c) t.push_back(static_cast<unsigned char>(*c));
	int err; PCRE2_SIZE off;
	// without the start optimisations: they wrongly demand a second a for (?=(a+))b?a
	uint32_t opt = PCRE2_NO_START_OPTIMIZE | (p.mode & 1 ? PCRE2_MULTILINE | PCRE2_ALT_CIRCUMFLEX : PCRE2_DOTALL | PCRE2_DOLLAR_ENDONLY) | (p.mode & 2 ? PCRE2_CASELESS : 0);
	pcre2_compile_context * cc = pcre2_compile_context_create(nullptr);
	pcre2_set_newline(cc, PCRE2_NEWLINE_LF);
	pcre2_code * c = pcre2_compile(t.data(), t.size(), opt, &err, &off, cc);
	if (!c) { fprintf(stderr, "model: pattern %d does not compile\n", p.id); exit(2); }
	cache[p.id] = c;
	return c;
}

static Exp exec(const Pattern & p, uint32_t opt, const Text & t, size_t from, size_t to) {
	static pcre2_match_data * md = pcre2_match_data_create(40, nullptr);
	static pcre2_match_context * mc = nullptr;
	if (!mc) { mc = pcre2_match_context_create(nullptr); pcre2_set_match_limit(mc, 50000000); pcre2_set_heap_limit(mc, 400000); }
	static const uint32_t dummy = 0;
	int rc = pcre2_match(compiled(p), t.cp.empty() ? &dummy : t.cp.data(), to, from, opt, md, mc);
	Exp e;
	if (rc < 0) {
		if (rc != PCRE2_ERROR_NOMATCH) { fprintf(stderr, "model: pcre2 error %d on pattern %d\n", rc, p.id); exit(2); }
		return e;
	}
	uint32_t n = 0;
	pcre2_pattern_info(compiled(p), PCRE2_INFO_CAPTURECOUNT, &n);
	PCRE2_SIZE * ov = pcre2_get_ovector_pointer(md);
	e.matched = true;
	for (uint32_t i = 0; i <= n; i++) {
		bool on = static_cast<int>(i) < rc && ov[2 * i] != PCRE2_UNSET;
		e.caps.push_back(on ? Cap{true, static_cast<long>(ov[2 * i]), static_cast<long>(ov[2 * i + 1])} : Cap{false, -1, -1});
	}
	return e;
}

static Exp mapped(Exp e, const Text & t) {
	for (auto & c : e.caps) if (c.on) { c.b = t.off[static_cast<size_t>(c.b)]; c.e = t.off[static_cast<size_t>(c.e)]; }
	return e;
}

Text decode(const SubjectSpec & s, const std::vector<uint32_t> & u) {
	Text t;
	if (s.cls != CL_U8) {
		t.cp = u;
		t.off.resize(u.size() + 1);
		for (size_t i = 0; i <= u.size(); i++) t.off[i] = static_cast<long>(i);
		return t;
	}
	for (size_t i = 0; i < u.size();) {
		uint32_t c = u[i];
		int n = c < 0x80 ? 0 : (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2 : 3;
		uint32_t v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
		t.off.push_back(static_cast<long>(i));
		++i;
		for (int k = 0; k < n; k++) v = (v << 6) | (u[i++] & 63);
		t.cp.push_back(v);
	}
	t.off.push_back(static_cast<long>(u.size()));
	return t;
}

static uint32_t options(int method) { return method == M_MATCH ? PCRE2_ANCHORED | PCRE2_ENDANCHORED : method == M_STARTS ? PCRE2_ANCHORED : 0; }

Exp model_eval(const Pattern & p, int method, const Text & t, int from, int to) {
	return mapped(exec(p, options(method), t, static_cast<size_t>(from), static_cast<size_t>(to)), t);
}

const Seq & model_seq(const Pattern & p, int kind, const Text & t, Seq & out) {
	const size_t n = t.cp.size();
	out.clear();
	if (kind == K_SPLIT) {
		size_t piece = 0;
		for (;;) {
			Exp e = exec(p, 0, t, piece, n);
			if (e.matched && e.caps[0].b == e.caps[0].e && static_cast<size_t>(e.caps[0].b) == piece && piece < n) e = exec(p, 0, t, piece + 1, n);
			if (!e.matched || (e.caps[0].b == e.caps[0].e && static_cast<size_t>(e.caps[0].b) == n)) {
				Exp last;
				last.matched = true;
				uint32_t caps = 0;
				pcre2_pattern_info(compiled(p), PCRE2_INFO_CAPTURECOUNT, &caps);
				last.caps.assign(caps + 1, Cap{false, -1, -1});
				last.caps[0] = Cap{true, static_cast<long>(piece), static_cast<long>(n)};
				out.push_back(mapped(last, t));
				return out;
			}
			size_t b = static_cast<size_t>(e.caps[0].b), en = static_cast<size_t>(e.caps[0].e);
			e.caps[0] = Cap{true, static_cast<long>(piece), static_cast<long>(b)};
			out.push_back(mapped(e, t));
			piece = en;
		}
	}
	const bool tok = kind == K_TOK;
	size_t from = 0;
	for (;;) {
		Exp e = exec(p, tok ? PCRE2_ANCHORED : 0, t, from, n);
		if (!e.matched) return out;
		size_t b = static_cast<size_t>(e.caps[0].b), en = static_cast<size_t>(e.caps[0].e);
		out.push_back(mapped(e, t));
		if (en == n) return out;
		from = en;
		if (b == en) {
			if (tok) return out;
			from++;
		}
	}
}
