// Case generation: one (property, seed, index) is one case.  Everything a run
// needs besides its schedule comes from here; the schedule itself is drawn by
// the runtime from the same seed while the run goes on.
#include <algorithm>
#include <cstring>
#include <sstream>
#include <unordered_map>
#include "sim.hpp"

namespace {

using Cps = std::vector<uint32_t>;

// alphabet and fragments are UTF-8 in the catalogue
Cps decoded(const char * s) {
	Cps r;
	while (*s) {
		const uint32_t c = static_cast<unsigned char>(*s++);
		int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
		uint32_t v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
		while (n--) v = v << 6 | (static_cast<unsigned char>(*s++) & 63);
		r.push_back(v);
	}
	return r;
}
struct Words { Cps alphabet; std::vector<Cps> frags; };
const Words & words_of(const Pattern & p) {
	static std::unordered_map<int, Words> cache;
	auto it = cache.find(p.id);
	if (it != cache.end()) return it->second;
	Words w;
	w.alphabet = decoded(p.alphabet);
	if (w.alphabet.empty()) w.alphabet.push_back('a');
	Cps cur;
	for (uint32_t v : decoded(p.frags)) { if (v == 0x1f) { w.frags.push_back(cur); cur.clear(); } else cur.push_back(v); }
	if (!cur.empty()) w.frags.push_back(cur);
	return cache[p.id] = w;
}

struct Slot { int t = 0, table = -1, subj = -1, kind = 0; }; // 0 none, 1 res, 2 range, 3 it, 4 piped range, 5 piped it

struct Gen {
	Rng r;
	Case & c;
	std::string prop;
	std::vector<int> cand;     // tables of this case
	int maxlen = 20;
	bool chunked = false, early = false, malformed = false, raw = false, wide = true, huge = false;
	std::vector<Slot> shared;

	Gen(const std::string & p, uint64_t seed, uint64_t index, Case & cc): c(cc), prop(p) {
		uint64_t h = 1469598103934665603ull;
		for (char ch : p) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ull;
		r.reseed(Rng::mix(seed * 0x9E3779B97F4A7C15ull + 1) ^ Rng::mix(index + 0x1234567) ^ h);
	}

	Cps text(const Pattern & p, int limit) {
		Cps t;
		const Words & words = words_of(p);
		const auto & frags = words.frags;
		auto any = [&]() -> uint32_t { return r.pick(words.alphabet); };
		auto add = [&](const Cps & s) { t.insert(t.end(), s.begin(), s.end()); };
		if (limit >= 200) { // long ones: mostly of one piece
			const size_t n = static_cast<size_t>(r.range(limit / 2, limit));
			const int style = static_cast<int>(r.below(4));
			const Cps one{any()};
			const Cps & main = style != 0 && !frags.empty() ? r.pick(frags) : one;
			const uint32_t odd = style == 3 ? 3 : style == 2 ? 30 : 1000000;
			if (r.chance(1, 3)) add(frags.empty() ? one : r.pick(frags));
			if (r.chance(1, 3)) { // as often as counters wrap
				const int wrap = limit > 65537 && r.chance(1, 2) ? 65536 : r.chance(1, 2) && limit > 513 ? 512 : 256;
				const Cps & same = main.empty() || r.chance(2, 3) ? one : main;
				for (int k = wrap + r.range(-1, 1) * r.range(0, 1); k > 0 && static_cast<int>(t.size() + same.size()) <= limit; k--) add(same);
				if (r.chance(1, 2)) t.push_back(any());
				if (r.chance(1, 3) && !frags.empty()) add(r.pick(frags));
				return t;
			}
			while (t.size() < n) { if (r.chance(1, odd)) t.push_back(any()); else add(main.empty() ? one : main); }
			if (r.chance(1, 2)) { if (r.chance(1, 2) && !frags.empty()) add(r.pick(frags)); else t.push_back(any()); }
			if (r.chance(1, 3)) t[r.below(static_cast<uint32_t>(t.size()))] = any();
			return t;
		}
		const int mode = static_cast<int>(r.below(16));
		if (mode == 0) return t;
		if (mode == 1) { t.push_back(any()); }
		else if (mode <= 5 || frags.empty()) {
			int n = r.range(1, limit);
			if (r.chance(1, 4)) { uint32_t k = any(); for (int i = 0; i < n; i++) t.push_back(r.chance(1, 6) ? any() : k); }
			else for (int i = 0; i < n; i++) t.push_back(any());
		} else if (mode <= 13) {
			int n = r.range(1, 5);
			for (int i = 0; i < n; i++) {
				if (r.chance(2, 3)) add(r.pick(frags));
				else { int k = r.range(1, 3); while (k--) t.push_back(any()); }
			}
		} else {
			const Cps & f = r.pick(frags);
			int n = r.range(1, 6);
			for (int i = 0; i < n; i++) add(f);
			if (!t.empty() && r.chance(1, 2)) t[r.below(static_cast<uint32_t>(t.size()))] = any();
		}
		size_t cap = static_cast<size_t>(limit * 2);
		for (int k : cand) if (pattern_of(tables[static_cast<size_t>(k)]->pattern).flags & 32) cap = std::min<size_t>(cap, 11); // backtracks exponentially
		if (t.size() > cap) t.resize(cap);
		return t;
	}
	void exotic(Cps & t, int cls) {
		static const uint32_t cps[] = {0xE9, 0x20AC, 0x1F600, 0xDF, 0x7FF, 0x800, 0xFFFD, 0x10FFFF, 0x80};
		int n = r.range(1, 3);
		while (n--) {
			uint32_t v = cps[r.below(9)];
			// a character which is like one of these in its low bits only
			if (!t.empty() && r.chance(1, 2)) v = r.pick(t) + 0x100 * (r.chance(1, 2) ? 1 : r.below(0x100));
			if (!t.empty() && r.chance(1, 8)) v = r.pick(t) + 0x10000 * (1 + r.below(0x10));
			if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) v = 0x1F600;
			if (cls == CL_U16 && v > 0xffff) v = 0x20AC;
			size_t at = r.below(static_cast<uint32_t>(t.size() + 1));
			if (!t.empty() && r.chance(1, 2) && at < t.size()) t[at] = v; else t.insert(t.begin() + static_cast<long>(at), v);
		}
	}
	static void put_utf8(std::vector<uint32_t> & o, uint32_t v) {
		if (v < 0x80) o.push_back(v);
		else if (v < 0x800) { o.push_back(0xC0 | (v >> 6)); o.push_back(0x80 | (v & 63)); }
		else if (v < 0x10000) { o.push_back(0xE0 | (v >> 12)); o.push_back(0x80 | ((v >> 6) & 63)); o.push_back(0x80 | (v & 63)); }
		else { o.push_back(0xF0 | (v >> 18)); o.push_back(0x80 | ((v >> 12) & 63)); o.push_back(0x80 | ((v >> 6) & 63)); o.push_back(0x80 | (v & 63)); }
	}
	// without the characters which do not fit into one code unit
	Cps fitting(const Cps & t, int cls) const {
		const uint32_t limit = cls == CL_NARROW || cls == CL_STREAM ? (raw ? 0xff : 0x7f) : cls == CL_U16 ? 0xffff : 0x10ffff;
		Cps o;
		for (uint32_t v : t) if (v <= limit) o.push_back(v);
		return o;
	}
	// the text as a subject of the form of that table
	int subject(const Table * t, const Cps & text, bool undisturbed = false) {
		const Cps cps = fitting(text, form_class(t->form));
		if (c.subjects.size() >= 12) return -1;
		SubjectSpec s;
		s.cls = form_class(t->form);
		if (s.cls == CL_U8) for (uint32_t v : cps) put_utf8(s.units, v);
		else s.units = cps;
		if (s.cls == CL_U8 && malformed && !undisturbed) {
			int n = r.range(1, 4);
			while (n--) {
				switch (r.below(5)) {
				case 0: if (!s.units.empty()) s.units.pop_back(); break;
				case 1: s.units.insert(s.units.begin() + static_cast<long>(r.below(static_cast<uint32_t>(s.units.size() + 1))), 0x80 + r.below(128)); break;
				case 2: if (!s.units.empty()) s.units[r.below(static_cast<uint32_t>(s.units.size()))] ^= 1u << r.below(8); break;
				case 3: s.units.push_back(0xC0 + r.below(64)); break;
				default: if (!s.units.empty()) s.units.erase(s.units.begin()); break;
				}
			}
			s.free_model = true;
		}
		s.place = r.chance(2, 3) ? 0 : 1;
		s.fill = static_cast<uint32_t>(r.below(1u << 30));
		s.zt = t->form == F_ZT || t->form == F_WZT;
		if (s.zt) for (auto & u : s.units) if (!u) u = '0';
		if (s.cls == CL_STREAM && !undisturbed) {
			if (early && r.chance(1, 3) && !s.units.empty()) s.eof_at = static_cast<int>(r.below(static_cast<uint32_t>(s.units.size())));
			if (chunked && r.chance(5, 6)) {
				int left = static_cast<int>(s.units.size());
				static const int delays[] = {0, 1, 20, 300, 5000, 100000};
				const int style = static_cast<int>(r.below(3));
				do {
					int n = style == 0 ? 1 : style == 1 ? r.range(0, 3) : r.range(1, 8);
					s.chunks.push_back(Chunk{static_cast<uint64_t>(delays[r.below(6)]), n});
					left -= n;
				} while (left > 0 && s.chunks.size() < 80);
			}
		}
		c.subjects.push_back(s);
		return static_cast<int>(c.subjects.size() - 1);
	}
	Cps text_for(const Table * t) {
		const Pattern & p = pattern_of(t->pattern);
		Cps x = text(p, maxlen);
		const int cls = form_class(t->form);
		if (raw) {
			for (auto & v : x) if (r.chance(1, 4)) v = cls == CL_NARROW || cls == CL_STREAM ? r.below(256) : cls == CL_U16 ? r.below(65536) : cls == CL_U8 ? r.below(128) : r.below(0x110000);
		} else if (wide && (cls == CL_U8 || cls == CL_U32 || cls == CL_U16 || cls == CL_WIDE) && !(p.flags & 8) && r.chance(1, 3)) exotic(x, cls);
		return x;
	}
	// an existing subject that suits the table, or a new one
	int subject_for(int table, int reuse = 3) {
		const Table * t = tables[static_cast<size_t>(table)];
		const int cls = form_class(t->form);
		const bool zt = t->form == F_ZT || t->form == F_WZT;
		std::vector<int> fit;
		for (size_t i = 0; i < c.subjects.size(); i++) if (c.subjects[i].cls == cls && c.subjects[i].zt == zt && !c.subjects[i].is_source) fit.push_back(static_cast<int>(i));
		if (!fit.empty() && (c.subjects.size() >= 12 || static_cast<int>(r.below(4)) < reuse)) return r.pick(fit);
		return subject(t, text_for(t));
	}
	// a source of many subjects
	int source(const Table * t) {
		if (c.subjects.size() >= 12) return -1;
		const Pattern & p = pattern_of(t->pattern);
		SubjectSpec s;
		s.is_source = true;
		s.cls = CL_NARROW;
		s.place = r.chance(2, 3) ? 0 : 1;
		s.fill = static_cast<uint32_t>(r.below(1u << 30));
		int n = r.chance(1, 12) ? 0 : r.range(1, 8);
		for (int i = 0; i < n; i++) {
			Cps x = fitting(text(p, 8), CL_NARROW);
			s.units.insert(s.units.end(), x.begin(), x.end());
			s.cuts.push_back(static_cast<int>(s.units.size()));
		}
		if (chunked && r.chance(3, 4)) {
			int left = n;
			static const int delays[] = {0, 1, 20, 300, 5000, 100000};
			do {
				int k = r.chance(1, 2) ? 1 : r.range(0, 3);
				s.chunks.push_back(Chunk{static_cast<uint64_t>(delays[r.below(6)]), k});
				left -= k;
			} while (left > 0 && s.chunks.size() < 40);
		}
		if (early && n && r.chance(1, 4)) s.eof_at = static_cast<int>(r.below(static_cast<uint32_t>(n)));
		c.subjects.push_back(s);
		return static_cast<int>(c.subjects.size() - 1);
	}

	static OpSpec op(int code, int table = -1, int subj = -1, int x = 0, int y = 0, int z = 0) { OpSpec o; o.code = code; o.table = table; o.subj = subj; o.x = x; o.y = y; o.z = z; return o; }
	int any_bit(int mask) {
		int n = __builtin_popcount(static_cast<unsigned>(mask));
		if (!n) return -1;
		int k = static_cast<int>(r.below(static_cast<uint32_t>(n)));
		for (int i = 0;; i++) if (mask >> i & 1) if (k-- == 0) return i;
	}
	int table_where(int what) { // bit 0 evals, 1 lazies, 2 conv, 3 pipe
		std::vector<int> ok;
		for (int t : cand) {
			const Table * x = tables[static_cast<size_t>(t)];
			if ((what & 1 && x->evals) || (what & 2 && x->lazies) || (what & 4 && x->conv && x->evals) || (what & 8 && x->pipe)) ok.push_back(t);
		}
		return ok.empty() ? -1 : r.pick(ok);
	}
	int find(const std::vector<Slot> & s, int t, int table = -1, int kind = -1, int subj = -1) {
		std::vector<int> ok;
		for (size_t i = 0; i < s.size(); i++) if (s[i].t == t && (table < 0 || (s[i].table == table && s[i].kind == kind)) && (subj < 0 || s[i].subj == subj)) ok.push_back(static_cast<int>(i));
		return ok.empty() ? -1 : r.pick(ok);
	}

	struct Weights { int w[O_N] = {}; };

	OpSpec eval_op() {
		int t = table_where(1);
		if (t < 0) return op(O_N);
		return op(O_EVAL, t, subject_for(t), 0, any_bit(tables[static_cast<size_t>(t)]->evals), static_cast<int>(r.below(2)));
	}

	// a random history over this caller's slots [0, limit)
	void history(std::vector<OpSpec> & ops, std::vector<Slot> & s, int n, const Weights & w, int limit = 10) {
		int total = 0;
		for (int x : w.w) total += x;
		auto free_slot = [&] { std::vector<int> f; for (int i = 0; i < limit; i++) if (!s[static_cast<size_t>(i)].t) f.push_back(i); return f.empty() ? -1 : r.pick(f); };
		auto other = [&](int t) { // own or shared
			if (!shared.empty() && r.chance(1, 3)) { int k = find(shared, t); if (k >= 0) return 100 + k; }
			return find(s, t);
		};
		auto at = [&](int slot) -> Slot & { return slot >= 100 ? shared[static_cast<size_t>(slot - 100)] : s[static_cast<size_t>(slot)]; };
		int guard = n * 6;
		while (n > 0 && guard-- > 0) {
			int k = static_cast<int>(r.below(static_cast<uint32_t>(total))), code = 0;
			while (k >= w.w[code]) k -= w.w[code++];
			const int d = free_slot();
			switch (code) {
			case O_EVAL: { OpSpec o = eval_op(); if (o.code == O_N || o.subj < 0) continue; ops.push_back(o); } break;
			case O_RES_MAKE: {
				int t = table_where(1);
				if (t < 0 || d < 0) continue;
				int sj = subject_for(t);
				if (sj < 0) continue;
				ops.push_back(op(code, t, sj, d, any_bit(tables[static_cast<size_t>(t)]->evals), static_cast<int>(r.below(2))));
				at(d) = Slot{1, t, sj, 0};
			} break;
			case O_RES_COPY: {
				int a = other(1); if (a < 0 || d < 0) continue;
				int how = static_cast<int>(r.below(4)) % 3;
				if (a >= 100 && how == 1) how = 0;
				ops.push_back(op(code, -1, -1, d, a, how)); at(d) = at(a);
				if (how == 1) at(a).t = 0;
			} break;
			case O_RES_ASSIGN: {
				int a = other(1); if (a < 0) continue;
				int b = find(s, 1, at(a).table, 0); if (b < 0) continue;
				int mv = a < 100 && a != b && r.chance(1, 4);
				ops.push_back(op(code, -1, -1, b, a, mv)); at(b) = at(a);
				if (mv) at(a).t = 0;
			} break;
			case O_RES_READ: { int a = other(1); if (a < 0) continue; ops.push_back(op(code, -1, -1, a, static_cast<int>(r.below(2)))); } break;
			case O_RES_CONV: { int a = other(1); if (a < 0) continue; ops.push_back(op(code, -1, -1, a, static_cast<int>(r.below(4)), static_cast<int>(r.below(CV_N)))); } break;
			case O_RG_MAKE: case O_IT_MAKE: {
				int t = table_where(2);
				if (t < 0 || d < 0) continue;
				int sj = subject_for(t);
				if (sj < 0) continue;
				int kind = any_bit(tables[static_cast<size_t>(t)]->lazies);
				ops.push_back(op(code, t, sj, d, kind, static_cast<int>(r.below(code == O_IT_MAKE ? 3 : 2))));
				at(d) = Slot{code == O_RG_MAKE ? 2 : 3, t, sj, kind};
			} break;
			case O_RG_COPY: { int a = other(2); if (a < 0 || d < 0) continue; ops.push_back(op(code, -1, -1, d, a)); at(d) = at(a); } break;
			case O_RG_ASSIGN: {
				int a = other(2); if (a < 0) continue;
				int b = find(s, 2, at(a).table, at(a).kind); if (b < 0) continue;
				ops.push_back(op(code, -1, -1, b, a)); at(b) = at(a);
			} break;
			case O_RG_BEGIN: { int a = other(2); if (a < 0 || d < 0) continue; ops.push_back(op(code, -1, -1, d, a)); at(d) = at(a); at(d).t = 3; } break;
			case O_IT_COPY: {
				int a = other(3); if (a < 0 || d < 0) continue;
				int mv = a < 100 && r.chance(1, 4) ? 1 : r.chance(1, 4) ? 2 : 0;
				ops.push_back(op(code, -1, -1, d, a, mv)); at(d) = at(a);
				if (mv == 1) at(a).t = 0;
			} break;
			case O_IT_ASSIGN: {
				int a = other(3); if (a < 0) continue;
				int b = find(s, 3, at(a).table, at(a).kind); if (b < 0) continue;
				int mv = a < 100 && a != b && r.chance(1, 4);
				ops.push_back(op(code, -1, -1, b, a, mv)); at(b) = at(a);
				if (mv) at(a).t = 0;
			} break;
			case O_IT_INC: { int a = find(s, 3); if (a < 0) continue; ops.push_back(op(code, -1, -1, a)); } break;
			case O_IT_POSTINC: { int a = find(s, 3); if (a < 0 || d < 0) continue; ops.push_back(op(code, -1, -1, a, d)); at(d) = at(a); } break;
			case O_IT_END: { int a = other(3); if (a < 0) continue; ops.push_back(op(code, -1, -1, a, static_cast<int>(r.below(4)))); } break;
			case O_IT_EQ: {
				int a = other(3); if (a < 0) continue;
				int b = find(s, 3, at(a).table, at(a).kind, at(a).subj); if (b < 0) continue;
				ops.push_back(op(code, -1, -1, a, b));
			} break;
			case O_IT_READ: { int a = other(3); if (a < 0) continue; ops.push_back(op(code, -1, -1, a, static_cast<int>(r.below(2)))); } break;
			case O_IT_RES: { int a = other(3); if (a < 0 || d < 0) continue; ops.push_back(op(code, -1, -1, a, d)); at(d) = at(a); at(d).t = 1; at(d).kind = 0; } break;
			case O_IT_WALK: {
				int a = find(s, 3); if (a < 0) continue;
				ops.push_back(op(code, -1, -1, a, r.chance(1, 2) ? r.range(1, 4) : 0, r.chance(1, 2) ? r.range(1, 3) : 0));
			} break;
			case O_DROP: { int a = static_cast<int>(r.below(static_cast<uint32_t>(limit))); if (!at(a).t) continue; ops.push_back(op(code, -1, -1, a)); at(a).t = 0; } break;
			case O_P_MAKE: {
				int t = table_where(8); if (t < 0 || d < 0) continue;
				std::vector<int> fit;
				for (size_t i = 0; i < c.subjects.size(); i++) if (c.subjects[i].is_source) fit.push_back(static_cast<int>(i));
				int sj = !fit.empty() && (r.chance(1, 2) || c.subjects.size() >= 12) ? r.pick(fit) : source(tables[static_cast<size_t>(t)]);
				if (sj < 0) continue;
				int m = static_cast<int>(r.below(3));
				ops.push_back(op(code, t, sj, d, m)); at(d) = Slot{4, t, sj, m};
			} break;
			case O_P_BEGIN: { int a = other(4); if (a < 0 || d < 0) continue; ops.push_back(op(code, -1, -1, d, a)); at(d) = at(a); at(d).t = 5; } break;
			case O_P_COPY: {
				int a = other(5); if (a < 0 || d < 0) continue;
				int mv = a < 100 && r.chance(1, 4) ? 1 : r.chance(1, 4) ? 2 : 0;
				ops.push_back(op(code, -1, -1, d, a, mv)); at(d) = at(a);
				if (mv == 1) at(a).t = 0;
			} break;
			case O_P_ASSIGN: {
				int a = other(5); if (a < 0) continue;
				int b = find(s, 5, at(a).table, at(a).kind); if (b < 0) continue;
				int mv = a < 100 && a != b && r.chance(1, 4);
				ops.push_back(op(code, -1, -1, b, a, mv)); at(b) = at(a);
				if (mv) at(a).t = 0;
			} break;
			case O_P_INC: { int a = find(s, 5); if (a < 0) continue; ops.push_back(op(code, -1, -1, a)); } break;
			case O_P_POSTINC: { int a = find(s, 5); if (a < 0 || d < 0) continue; ops.push_back(op(code, -1, -1, a, d)); at(d) = at(a); } break;
			case O_P_END: { int a = other(5); if (a < 0) continue; int g = find(s, 4, at(a).table, at(a).kind); if (g < 0) continue; ops.push_back(op(code, -1, -1, a, g, static_cast<int>(r.below(4)))); } break;
			case O_P_EQ: { int a = other(5); if (a < 0) continue; int b = find(s, 5, at(a).table, at(a).kind, at(a).subj); if (b < 0) continue; ops.push_back(op(code, -1, -1, a, b)); } break;
			case O_P_READ: { int a = other(5); if (a < 0) continue; ops.push_back(op(code, -1, -1, a, static_cast<int>(r.below(3)))); } break;
			case O_P_WALK: { int a = find(s, 5); if (a < 0) continue; int g = find(s, 4, at(a).table, at(a).kind); if (g < 0) continue; ops.push_back(op(code, -1, -1, a, g, static_cast<int>(r.below(4)))); } break;
			default: continue;
			}
			n--;
		}
	}
	// walk everything that is still there to its end
	void finish(std::vector<OpSpec> & ops, std::vector<Slot> & s, int z) {
		int k = 0;
		for (size_t i = 0; i < s.size(); i++) {
			if (s[i].t == 3 && k < 4) { ops.push_back(op(O_IT_WALK, -1, -1, static_cast<int>(i), 0, z)); k++; }
			else if (s[i].t == 1) ops.push_back(op(O_RES_READ, -1, -1, static_cast<int>(i)));
			else if (s[i].t == 5 && k < 4) { int g = find(s, 4, s[i].table, s[i].kind); if (g >= 0) { ops.push_back(op(O_P_WALK, -1, -1, static_cast<int>(i), g, static_cast<int>(r.below(4)))); k++; } }
		}
	}
	void choose_tables(int n, auto && ok) {
		cand.clear();
		std::vector<int> all;
		for (size_t i = 0; i < tables.size(); i++) if (ok(tables[i])) all.push_back(static_cast<int>(i));
		if (all.empty()) for (size_t i = 0; i < tables.size(); i++) all.push_back(static_cast<int>(i));
		for (int i = 0; i < n; i++) cand.push_back(r.pick(all));
		std::sort(cand.begin(), cand.end());
		cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
	}
	// one pattern in all its forms
	void hot_pattern(int n) {
		int p = tables[r.below(static_cast<uint32_t>(tables.size()))]->pattern;
		std::vector<int> all;
		for (size_t i = 0; i < tables.size(); i++) if (tables[i]->pattern == p) all.push_back(static_cast<int>(i));
		cand.clear();
		for (int i = 0; i < n; i++) cand.push_back(r.pick(all));
		std::sort(cand.begin(), cand.end());
		cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
	}
	void schedule(bool dense) {
		Params & p = c.par;
		static const int fine[] = {1, 2, 4, 8, 20, 60, 200}, coarse[] = {0, 0, 20, 100, 500, 3000};
		p.preempt = dense ? fine[r.below(7)] : coarse[r.below(6)];
		static const int seams[] = {0, 0, 8, 64, 200};
		p.seam = seams[r.below(5)];
		static const int ow[] = {0, 40, 128, 255};
		p.opsw = ow[r.below(4)];
		p.statics = 96;
		p.sw = 10;
	}
	void clients(int n) { c.clients.resize(static_cast<size_t>(n)); }
	void reentry(ClientSpec & cl, int n) {
		// what a callback does: whole evaluations and steps on objects of its own (slots 10 and 11)
		for (int i = 0; i < n; i++) {
			OpSpec o;
			switch (r.below(shared.empty() ? 5 : 6)) {
			case 0: case 1: o = eval_op(); break;
			case 2: case 3: {
				int t = table_where(2);
				if (t < 0) { o = eval_op(); break; }
				int slot = 10 + static_cast<int>(r.below(2));
				o = op(O_IT_MAKE, t, subject_for(t), slot, any_bit(tables[static_cast<size_t>(t)]->lazies), static_cast<int>(r.below(3)));
				cl.irqs.push_back(o);
				o = op(O_IT_WALK, -1, -1, slot, r.chance(1, 2) ? 0 : 1, 0);
				cl.irqs.push_back(o);
				o = op(O_DROP, -1, -1, slot);
			} break;
			case 4: o = eval_op(); break;
			default: { int k = find(shared, 1); o = k >= 0 ? op(O_RES_READ, -1, -1, 100 + k) : eval_op(); } break;
			}
			if (o.code != O_N) cl.irqs.push_back(o);
		}
	}
	Weights walk_weights() {
		Weights w;
		w.w[O_RG_MAKE] = 3; w.w[O_RG_COPY] = 1; w.w[O_RG_ASSIGN] = 1; w.w[O_RG_BEGIN] = 5; w.w[O_IT_MAKE] = 3; w.w[O_IT_COPY] = 5; w.w[O_IT_ASSIGN] = 5;
		w.w[O_IT_INC] = 10; w.w[O_IT_POSTINC] = 6; w.w[O_IT_END] = 5; w.w[O_IT_EQ] = 8; w.w[O_IT_READ] = 8; w.w[O_IT_RES] = 2; w.w[O_RES_READ] = 2;
		w.w[O_IT_WALK] = 3; w.w[O_DROP] = 3;
		return w;
	}

	// what the owner of the characters of that subject puts there next
	void edit_text(OpSpec & o) {
		const SubjectSpec & s = c.subjects[static_cast<size_t>(o.subj)];
		Cps x;
		const Table * t = tables[static_cast<size_t>(r.pick(cand))];
		for (int i = 0; i < 6 && form_class(t->form) != s.cls; i++) t = tables[static_cast<size_t>(r.pick(cand))];
		const bool longer = maxlen >= 200;
		if (s.cls == CL_U8 || longer || r.chance(2, 5)) x = fitting(text(pattern_of(t->pattern), maxlen), s.cls);
		else { // the same with something changed: its length stays
			x = s.units;
			const Words & w = words_of(pattern_of(t->pattern));
			int n = r.range(1, 3);
			while (n-- && !x.empty()) x[r.below(static_cast<uint32_t>(x.size()))] = r.pick(w.alphabet);
			x = fitting(x, s.cls);
		}
		if (s.cls != CL_U8 && !longer && r.chance(1, 2) && !s.units.empty()) { // another text of the same length
			while (x.size() < s.units.size()) x.push_back(x.empty() ? s.units[0] : x[r.below(static_cast<uint32_t>(x.size()))]);
			x.resize(s.units.size());
		}
		if (s.zt) for (auto & u : x) if (!u) u = '0';
		if (s.cls == CL_U8) for (uint32_t v : x) put_utf8(o.text, v);
		else o.text = x;
	}
	bool editable(int subj) const { return subj >= 0 && !c.subjects[static_cast<size_t>(subj)].is_source && c.subjects[static_cast<size_t>(subj)].cls != CL_STREAM && !c.subjects[static_cast<size_t>(subj)].free_model; }
	// evaluations and walks again after their subject was replaced
	void edits(std::vector<OpSpec> & ops, int n) {
		while (n-- > 0 && !ops.empty()) {
			const size_t at = r.below(static_cast<uint32_t>(ops.size()));
			const OpSpec o = ops[at];
			if ((o.code != O_EVAL && o.code != O_IT_MAKE) || !editable(o.subj)) continue;
			std::vector<OpSpec> more;
			OpSpec e = op(O_EDIT, -1, o.subj);
			edit_text(e);
			auto use = [&] {
				if (o.code == O_EVAL) { more.push_back(o); return; }
				more.push_back(op(O_IT_MAKE, o.table, o.subj, 12, o.y, o.z));
				more.push_back(op(O_IT_WALK, -1, -1, 12, 0, 0));
				more.push_back(op(O_DROP, -1, -1, 12));
			};
			use();
			more.push_back(e);
			use();
			ops.insert(ops.begin() + static_cast<long>(at), more.begin(), more.end());
		}
	}
	// once in a while subjects that are far longer
	void lengths(uint32_t rare) {
		auto only = [&](int flag) {
			std::vector<int> ok;
			for (int t : cand) if (pattern_of(tables[static_cast<size_t>(t)]->pattern).flags & flag) ok.push_back(t);
			if (ok.empty()) for (int k = 0; k < 400 && ok.empty(); k++) { int t = static_cast<int>(r.below(static_cast<uint32_t>(tables.size()))); if (pattern_of(tables[static_cast<size_t>(t)]->pattern).flags & flag && (tables[static_cast<size_t>(t)]->evals | tables[static_cast<size_t>(t)]->lazies)) ok.push_back(t); }
			if (ok.empty()) return false;
			cand = ok;
			return true;
		};
		if (r.chance(1, rare * 25)) {
			if (!only(256)) return;
			maxlen = 70000;
			cand.resize(1);
			c.clients.resize(1);
			c.par.budget = 2000000000;
			c.par.preempt = 0; c.par.seam = 0; c.par.flip = 0; c.par.neigh = 0; c.par.irq = 0; c.par.crash = 0;
			huge = true;
		} else if (r.chance(1, rare)) {
			if (!only(128)) return;
			maxlen = r.chance(1, 2) ? 300 : 600;
			if (c.clients.size() > 2) c.clients.resize(2);
			c.par.budget = 200000000;
			if (c.par.preempt && c.par.preempt < 60) c.par.preempt = 60;
			c.par.seam = 0;
		}
	}
	void huge_script(ClientSpec & cl) {
		const int t = cand[0];
		const Table * x = tables[static_cast<size_t>(t)];
		const int sj = subject(x, text(pattern_of(x->pattern), maxlen), true);
		if (sj < 0) return;
		if (x->evals) for (int k = 0; k < 2; k++) cl.ops.push_back(op(O_EVAL, t, sj, 0, any_bit(x->evals), 0));
		if (x->lazies) {
			cl.ops.push_back(op(O_IT_MAKE, t, sj, 0, any_bit(x->lazies), 0));
			cl.ops.push_back(op(O_IT_WALK, -1, -1, 0, 0, 0));
		}
	}

	void make_shared() {
		// objects everybody reads: made before the clients start
		shared.assign(12, Slot{});
		int n = r.range(1, 4);
		for (int i = 0; i < n; i++) {
			int t = table_where(3);
			if (t < 0) break;
			const Table * x = tables[static_cast<size_t>(t)];
			int sj = subject(x, text_for(x), true);
			if (sj < 0) break;
			if (x->evals) { c.setup.push_back(op(O_RES_MAKE, t, sj, i, any_bit(x->evals), 0)); shared[static_cast<size_t>(i)] = Slot{1, t, sj, 0}; }
			if (x->lazies) {
				int kind = any_bit(x->lazies);
				c.setup.push_back(op(O_RG_MAKE, t, sj, 4 + i, kind, 0)); shared[static_cast<size_t>(4 + i)] = Slot{2, t, sj, kind};
				c.setup.push_back(op(O_RG_BEGIN, -1, -1, 8 + i, 4 + i)); shared[static_cast<size_t>(8 + i)] = Slot{3, t, sj, kind};
			}
		}
	}

	void walks(int kinds) {
		(void)kinds;
		// histories of lazy walks
		c.par.oracle = 2;
		chunked = r.chance(1, 2);
		choose_tables(r.chance(1, 2) ? 1 : r.range(1, 4), [](const Table * t) { return t->lazies != 0; });
		clients(r.chance(1, 3) ? 1 : r.range(2, 4));
		schedule(false);
		c.par.past_end = r.chance(1, 3);
		c.par.max_crash = r.chance(1, 4) ? 2 : 0;
		c.par.crash = c.par.max_crash ? 3 : 0;
		if (c.par.max_crash && !c.par.preempt) c.par.preempt = 200;
		lengths(150);
		if (huge) { huge_script(c.clients[0]); return; }
		if (maxlen < 200 && r.chance(1, 3)) make_shared();
		Weights w = walk_weights();
		const bool replaced = r.chance(1, 6);
		for (auto & cl : c.clients) {
			std::vector<Slot> s(13);
			if (maxlen >= 200 || r.chance(1, 3)) {
				// plain loop
				int t = table_where(2);
				if (t < 0) continue;
				int k = any_bit(tables[static_cast<size_t>(t)]->lazies);
				int sj = subject_for(t, 1);
				if (sj < 0) continue;
				cl.ops.push_back(op(O_IT_MAKE, t, sj, 0, k, static_cast<int>(r.below(3))));
				cl.ops.push_back(op(O_IT_WALK, -1, -1, 0, 0, static_cast<int>(r.below(3))));
			} else {
				history(cl.ops, s, r.range(6, 24), w);
				finish(cl.ops, s, c.par.past_end ? static_cast<int>(r.below(3)) : 0);
			}
			if (replaced) edits(cl.ops, r.range(1, 3));
		}
	}

	void c01() {
		chunked = r.chance(1, 2);
		wide = true;
		if (r.chance(2, 3)) hot_pattern(r.range(1, 3)); else choose_tables(r.range(1, 4), [](const Table *) { return true; });
		clients(r.range(2, 6));
		schedule(true);
		if (r.chance(1, 2)) make_shared();
		c.par.max_crash = r.chance(1, 3) ? r.range(1, 3) : 0;
		c.par.crash = c.par.max_crash ? r.range(1, 6) : 0;
		c.par.irq = r.chance(1, 2) ? r.range(1, 20) : 0;
		maxlen = r.chance(1, 8) ? 40 : 16;
		if (shared.empty()) lengths(250);
		if (huge) { huge_script(c.clients[0]); return; }
		const bool replaced = r.chance(1, 3);
		Weights w = walk_weights();
		w.w[O_EVAL] = 24; w.w[O_RES_MAKE] = 5; w.w[O_RES_COPY] = 2; w.w[O_RES_ASSIGN] = 2; w.w[O_RES_READ] = 3;
		// most callers evaluate the same few things on different subjects at the same time
		const bool same_op = r.chance(1, 3);
		for (auto & cl : c.clients) {
			if (c.par.irq) reentry(cl, r.range(1, 4));
			if (same_op) {
				int n = r.range(1, 4);
				while (n--) { OpSpec o = eval_op(); if (o.code != O_N && o.subj >= 0) cl.ops.push_back(o); }
			} else {
				std::vector<Slot> s(13);
				history(cl.ops, s, maxlen >= 200 ? 4 : r.range(3, 12), w);
				finish(cl.ops, s, 0);
			}
			if (replaced) edits(cl.ops, r.range(1, 3));
		}
	}

	void c05() {
		c.par.oracle = 0;
		c.par.past_end = 1;
		chunked = r.chance(1, 3);
		early = chunked;
		choose_tables(r.chance(1, 2) ? 1 : r.range(1, 3), [](const Table *) { return true; });
		clients(r.chance(2, 3) ? 1 : r.range(2, 3));
		schedule(false);
		maxlen = r.chance(1, 10) ? 48 : r.chance(1, 2) ? 8 : 20;
		lengths(150);
		if (huge) { huge_script(c.clients[0]); return; }
		Weights w = walk_weights();
		w.w[O_EVAL] = 12;
		w.w[O_IT_WALK] = 6;
		for (auto & cl : c.clients) {
			std::vector<Slot> s(13);
			if (maxlen >= 200 || r.chance(1, 2)) {
				int t = table_where(3), n = r.range(1, 3);
				if (t < 0) continue;
				const Table * x = tables[static_cast<size_t>(t)];
				while (n--) {
					int sj = subject_for(t, 1);
					if (sj < 0) break;
					if (x->evals) cl.ops.push_back(op(O_EVAL, t, sj, 0, any_bit(x->evals), 0));
					if (x->lazies) {
						cl.ops.push_back(op(O_IT_MAKE, t, sj, n, any_bit(x->lazies), static_cast<int>(r.below(3))));
						cl.ops.push_back(op(O_IT_WALK, -1, -1, n, 0, r.range(0, 3)));
					}
				}
			} else {
				history(cl.ops, s, r.range(6, 20), w);
				finish(cl.ops, s, static_cast<int>(r.below(4)));
			}
		}
	}

	void c06() {
		choose_tables(r.range(1, 3), [](const Table *) { return true; });
		clients(r.chance(1, 2) ? 1 : r.range(2, 3));
		schedule(false);
		c.par.max_crash = r.chance(1, 3) ? 2 : 0;
		c.par.crash = c.par.max_crash ? 3 : 0;
		if (c.par.max_crash && !c.par.preempt) c.par.preempt = 200;
		if (r.chance(1, 3)) make_shared();
		Weights w = walk_weights();
		w.w[O_RES_MAKE] = 6; w.w[O_RES_COPY] = 5; w.w[O_RES_ASSIGN] = 5; w.w[O_RES_READ] = 8; w.w[O_IT_RES] = 6; w.w[O_RG_MAKE] = 6; w.w[O_RG_COPY] = 4; w.w[O_RG_ASSIGN] = 4;
		const bool replaced = r.chance(1, 4);
		w.w[O_RG_BEGIN] = 8; w.w[O_IT_MAKE] = 8; w.w[O_DROP] = 14; w.w[O_EVAL] = 3; w.w[O_IT_WALK] = 4;
		for (auto & cl : c.clients) {
			std::vector<Slot> s(13);
			history(cl.ops, s, r.range(10, 30), w);
			finish(cl.ops, s, 0);
			if (replaced) edits(cl.ops, r.range(1, 3));
		}
	}

	void c07() {
		c.par.crossform = 1;
		chunked = true;
		early = r.chance(1, 2);
		// one text, every form of it
		int p = tables[r.below(static_cast<uint32_t>(tables.size()))]->pattern;
		std::vector<int> all;
		for (size_t i = 0; i < tables.size(); i++) if (tables[i]->pattern == p) all.push_back(static_cast<int>(i));
		const Pattern & pat = pattern_of(p);
		cand = all;
		maxlen = r.chance(1, 8) ? 40 : 16;
		schedule(r.chance(1, 2));
		clients(r.range(1, 4));
		lengths(300);
		if (huge) maxlen = 1000;
		if (maxlen >= 200) cand = all, early = false;
		if (maxlen >= 200 && !(pat.flags & 128)) maxlen = 16;
		raw = r.chance(1, 6);
		Cps x = text(pat, maxlen);
		if (raw) for (auto & v : x) if (r.chance(1, 4)) v = 0x80 + r.below(0x80);
		const int style = static_cast<int>(r.below(3)); // 0 streams only
		std::vector<std::pair<int, int>> uses;
		for (int k = 0; k < 6; k++) {
			int t = r.pick(all);
			const int cls = form_class(tables[static_cast<size_t>(t)]->form);
			if (style == 0 && cls != CL_STREAM) continue;
			Cps y = x;
			if ((cls == CL_U8 || cls == CL_U32 || cls == CL_U16 || cls == CL_WIDE) && !(pat.flags & 8) && r.chance(1, 2)) exotic(y, cls);
			int sj = subject(tables[static_cast<size_t>(t)], y);
			if (sj < 0) break;
			uses.push_back({t, sj});
		}
		if (uses.empty()) { int t = r.pick(all); uses.push_back({t, subject(tables[static_cast<size_t>(t)], x)}); }
		for (auto & cl : c.clients) {
			int n = r.range(1, 4);
			for (int i = 0; i < n; i++) {
				auto u = r.pick(uses);
				const Table * t = tables[static_cast<size_t>(u.first)];
				if (t->evals && (!t->lazies || r.chance(2, 3))) cl.ops.push_back(op(O_EVAL, u.first, u.second, 0, any_bit(t->evals), static_cast<int>(r.below(2))));
				else if (t->lazies) {
					cl.ops.push_back(op(O_IT_MAKE, u.first, u.second, i, any_bit(t->lazies), static_cast<int>(r.below(3))));
					cl.ops.push_back(op(O_IT_WALK, -1, -1, i, 0, 0));
				}
			}
			if (!raw && r.chance(1, 6)) edits(cl.ops, 1);
		}
	}

	void c08() {
		const int style = static_cast<int>(r.below(6));
		raw = style >= 2;
		malformed = style == 1 || style == 3 || style == 4;
		early = chunked = r.chance(1, 3);
		choose_tables(r.range(1, 3), [&](const Table * t) { return !malformed || r.chance(1, 2) || form_class(t->form) == CL_U8; });
		clients(r.chance(1, 2) ? 1 : r.range(2, 3));
		schedule(r.chance(1, 2));
		c.par.flip = style >= 4 ? r.range(1, 20) : 0;
		c.par.neigh = r.chance(1, 2) ? 10 : 0;
		if ((c.par.flip || c.par.neigh) && !c.par.preempt) c.par.preempt = 40;
		c.par.past_end = 0;
		maxlen = r.chance(1, 4) ? 4 : 16;
		Weights w = walk_weights();
		w.w[O_EVAL] = 30; w.w[O_IT_WALK] = 8; w.w[O_RES_MAKE] = 3; w.w[O_RES_READ] = 3;
		for (auto & cl : c.clients) {
			std::vector<Slot> s(13);
			history(cl.ops, s, r.range(3, 12), w);
			finish(cl.ops, s, 0);
		}
		// the same text again, at another place with other surroundings
		if (r.chance(1, 2)) {
			size_t n = c.subjects.size();
			for (size_t i = 0; i < n && c.subjects.size() < 12; i++) {
				if (c.subjects[i].cls == CL_STREAM || c.subjects[i].is_source) continue;
				SubjectSpec d = c.subjects[i];
				d.place = !d.place;
				d.fill = static_cast<uint32_t>(r.below(1u << 30));
				c.subjects.push_back(d);
				for (auto & cl : c.clients) {
					std::vector<OpSpec> more;
					for (auto & o : cl.ops) if (o.code == O_EVAL && o.subj == static_cast<int>(i)) { OpSpec q = o; q.subj = static_cast<int>(c.subjects.size() - 1); more.push_back(q); }
					cl.ops.insert(cl.ops.end(), more.begin(), more.end());
				}
			}
		}
	}

	void c09() {
		chunked = r.chance(3, 4);
		early = r.chance(1, 2);
		choose_tables(r.range(1, 2), [](const Table * t) { return t->pipe != 0; });
		clients(r.chance(1, 2) ? 1 : r.range(2, 4));
		schedule(false);
		c.par.max_crash = r.chance(1, 5) ? 1 : 0;
		c.par.crash = c.par.max_crash ? 3 : 0;
		if (c.par.max_crash && !c.par.preempt) c.par.preempt = 200;
		Weights w;
		w.w[O_P_MAKE] = 4; w.w[O_P_BEGIN] = 6; w.w[O_P_COPY] = 5; w.w[O_P_ASSIGN] = 5; w.w[O_P_INC] = 10; w.w[O_P_POSTINC] = 6; w.w[O_P_END] = 8; w.w[O_P_EQ] = 8; w.w[O_P_READ] = 8; w.w[O_P_WALK] = 3; w.w[O_DROP] = 3;
		for (auto & cl : c.clients) {
			std::vector<Slot> s(13);
			if (r.chance(1, 3)) {
				int t = table_where(8);
				int sj = source(tables[static_cast<size_t>(t)]);
				if (sj < 0) continue;
				cl.ops.push_back(op(O_P_MAKE, t, sj, 0, static_cast<int>(r.below(3))));
				cl.ops.push_back(op(O_P_BEGIN, -1, -1, 1, 0));
				cl.ops.push_back(op(O_P_WALK, -1, -1, 1, 0, static_cast<int>(r.below(4))));
			} else {
				history(cl.ops, s, r.range(6, 24), w);
				finish(cl.ops, s, 0);
			}
		}
	}

	void c10() {
		c.par.oracle = 0;
		choose_tables(r.range(1, 3), [](const Table * t) { return t->conv != 0; });
		clients(r.range(1, 3));
		schedule(r.chance(1, 2));
		maxlen = r.chance(1, 3) ? 40 : 20; // beyond the small-string limit too
		Weights w = walk_weights();
		const bool replaced = r.chance(1, 6);
		w.w[O_EVAL] = 3; w.w[O_RES_MAKE] = 16; w.w[O_RES_CONV] = 40; w.w[O_IT_RES] = 8; w.w[O_RES_COPY] = 3; w.w[O_RES_ASSIGN] = 3;
		for (auto & cl : c.clients) {
			std::vector<Slot> s(13);
			history(cl.ops, s, r.range(6, 20), w);
			finish(cl.ops, s, 0);
			if (replaced) edits(cl.ops, 1);
			for (auto & o : cl.ops) {
				if (o.code == O_RES_CONV && o.z == CV_OSTREAM) o.z = CV_STRING;
				if (r.chance(1, 3)) { o.fk = FK_ALLOC; o.fn = r.chance(3, 4) ? 1 : r.range(1, 3); }
			}
		}
	}

	void c11() {
		c.par.oracle = 0;
		choose_tables(r.range(1, 3), [](const Table * t) { return t->conv != 0; });
		clients(r.range(1, 3));
		schedule(r.chance(1, 2));
		maxlen = r.chance(1, 3) ? 40 : 20;
		Weights w;
		w.w[O_RES_MAKE] = 16; w.w[O_RES_CONV] = 40; w.w[O_RES_COPY] = 3; w.w[O_RES_READ] = 8; w.w[O_DROP] = 6; w.w[O_EVAL] = 2;
		for (auto & cl : c.clients) {
			std::vector<Slot> s(13);
			history(cl.ops, s, r.range(6, 20), w);
			finish(cl.ops, s, 0);
			for (auto & o : cl.ops) if (o.code == O_RES_CONV) {
				o.z = CV_OSTREAM;
				o.fx = static_cast<int>(r.below(1u << 14));
				if (r.chance(1, 3)) o.fx &= ~15;
				if (r.chance(1, 2)) { o.fk = FK_SINK; o.fn = static_cast<int>(r.below(48)); }
			}
		}
	}

	void c12() {
		choose_tables(r.range(1, 3), [](const Table * t) { return t->pipe || form_class(t->form) == CL_STREAM; });
		clients(r.range(1, 3));
		schedule(r.chance(1, 2));
		chunked = r.chance(1, 2);
		maxlen = r.chance(1, 4) ? 5 : 14;
		Weights w = walk_weights();
		w.w[O_EVAL] = 30; w.w[O_RES_MAKE] = 4; w.w[O_IT_WALK] = 8;
		bool pipes = false;
		for (int t : cand) pipes |= tables[static_cast<size_t>(t)]->pipe != 0;
		if (pipes && r.chance(1, 2)) { w.w[O_P_MAKE] = 10; w.w[O_P_BEGIN] = 12; w.w[O_P_COPY] = 3; w.w[O_P_INC] = 12; w.w[O_P_POSTINC] = 4; w.w[O_P_END] = 6; w.w[O_P_READ] = 6; w.w[O_P_WALK] = 8; }
		const uint32_t rate = 1 + r.below(3);
		for (auto & cl : c.clients) {
			std::vector<Slot> s(13);
			history(cl.ops, s, r.range(3, 12), w);
			finish(cl.ops, s, 0);
			for (auto & o : cl.ops) if (r.chance(rate, 4)) { o.fk = FK_THROW; o.fn = r.chance(1, 2) ? r.range(1, 12) : r.range(1, 90); }
		}
	}
};

} // namespace

void gen_case(const std::string & prop, uint64_t seed, uint64_t index, Case & c) {
	c = Case{};
	c.prop = prop;
	c.seed = seed;
	c.index = index;
	Gen g(prop, seed, index, c);
	if (prop == "C01") g.c01();
	else if (prop == "C02" || prop == "C03" || prop == "C04") g.walks(0);
	else if (prop == "C05") g.c05();
	else if (prop == "C06") g.c06();
	else if (prop == "C07") g.c07();
	else if (prop == "C08") g.c08();
	else if (prop == "C09") g.c09();
	else if (prop == "C10") g.c10();
	else if (prop == "C11") g.c11();
	else if (prop == "C12") g.c12();
	for (auto & s : c.subjects) if (s.free_model && s.cls != CL_U8) s.free_model = false;
	bool work = false;
	for (auto & cl : c.clients) work |= !cl.ops.empty();
	if (!work) { // never an empty case
		OpSpec o = g.eval_op();
		if (c.clients.empty()) c.clients.resize(1);
		if (o.code != O_N) c.clients[0].ops.push_back(o);
	}
}

// ---------------------------------------------------------------- replay files
std::string case_to_text(const Case & c) {
	std::ostringstream o;
	o << "case " << c.prop << " " << c.seed << " " << c.index << "\n";
	const Params & p = c.par;
	o << "par restart " << p.restart << " past_end " << p.past_end << " no_alloc " << p.no_alloc << " budget " << p.budget << " oracle " << p.oracle << " crossform " << p.crossform << " flip " << p.flip << "\n";
	for (auto & s : c.subjects) {
		o << "subject cls " << s.cls << " place " << s.place << " zt " << s.zt << " fill " << s.fill << " eof " << s.eof_at << " free " << s.free_model << " source " << s.is_source << " units " << s.units.size();
		for (auto u : s.units) o << " " << u;
		o << " chunks " << s.chunks.size();
		for (auto & k : s.chunks) o << " " << k.delay << " " << k.count;
		o << " cuts " << s.cuts.size();
		for (int k : s.cuts) o << " " << k;
		o << "\n";
	}
	auto ops = [&](const char * tag, const std::vector<OpSpec> & v) {
		for (auto & x : v) {
			o << tag << " " << (x.code < O_N ? op_names[x.code] : "nop");
			if (x.table >= 0) o << " " << tables[static_cast<size_t>(x.table)]->pattern << " " << tables[static_cast<size_t>(x.table)]->form;
			else o << " -1 -1";
			o << " " << x.subj << " " << x.x << " " << x.y << " " << x.z << " " << x.fk << " " << x.fn << " " << x.fx;
			if (x.code == O_EDIT) { o << " text " << x.text.size(); for (auto u : x.text) o << " " << u; }
			if (x.table >= 0) o << "   # " << pattern_of(tables[static_cast<size_t>(x.table)]->pattern).text;
			o << "\n";
		}
	};
	ops("setup", c.setup);
	for (auto & cl : c.clients) {
		o << "client\n";
		ops("op", cl.ops);
		ops("irq", cl.irqs);
	}
	if (c.replay) o << "replay\n";
	for (auto & e : c.events) o << "event " << e.client << " " << e.op << " " << e.nest << " " << e.tick << " " << ev_names[e.kind] << " " << e.a << " " << e.b << "\n";
	return o.str();
}

bool case_from_text(const std::string & text, Case & c, std::string & err) {
	c = Case{};
	std::istringstream in(text);
	std::string line;
	while (std::getline(in, line)) {
		size_t hash = line.find("   #");
		if (hash != std::string::npos) line.resize(hash);
		std::istringstream l(line);
		std::string k, w;
		if (!(l >> k) || k[0] == '#') continue;
		if (k == "case") l >> c.prop >> c.seed >> c.index;
		else if (k == "par") {
			long v;
			while (l >> w >> v) {
				if (w == "restart") c.par.restart = static_cast<int>(v);
				if (w == "past_end") c.par.past_end = static_cast<int>(v);
				if (w == "no_alloc") c.par.no_alloc = static_cast<int>(v);
				if (w == "budget") c.par.budget = v;
				if (w == "oracle") c.par.oracle = static_cast<int>(v);
				if (w == "crossform") c.par.crossform = static_cast<int>(v);
				if (w == "flip") c.par.flip = static_cast<int>(v);
			}
		} else if (k == "subject") {
			SubjectSpec s;
			size_t n;
			while (l >> w) {
				if (w == "cls") l >> s.cls;
				else if (w == "place") l >> s.place;
				else if (w == "zt") l >> s.zt;
				else if (w == "fill") l >> s.fill;
				else if (w == "eof") l >> s.eof_at;
				else if (w == "free") l >> s.free_model;
				else if (w == "source") l >> s.is_source;
				else if (w == "units") { l >> n; s.units.resize(n); for (auto & u : s.units) l >> u; }
				else if (w == "chunks") { l >> n; s.chunks.resize(n); for (auto & u : s.chunks) l >> u.delay >> u.count; }
				else if (w == "cuts") { l >> n; s.cuts.resize(n); for (auto & u : s.cuts) l >> u; }
			}
			c.subjects.push_back(s);
		} else if (k == "setup" || k == "op" || k == "irq") {
			OpSpec o;
			int pat, form;
			if (!(l >> w >> pat >> form >> o.subj >> o.x >> o.y >> o.z >> o.fk >> o.fn >> o.fx)) { err = "bad line: " + line; return false; }
			o.code = O_N;
			for (int i = 0; i < O_N; i++) if (w == op_names[i]) o.code = i;
			size_t n;
			if (o.code == O_EDIT && l >> w >> n) { o.text.resize(n); for (auto & u : o.text) l >> u; }
			if (pat >= 0) {
				o.table = find_table(pat, form);
				if (o.table < 0) { err = "no such table: " + line; return false; }
			}
			if (k == "setup") c.setup.push_back(o);
			else {
				if (c.clients.empty()) { err = "operation without client"; return false; }
				(k == "op" ? c.clients.back().ops : c.clients.back().irqs).push_back(o);
			}
		} else if (k == "client") c.clients.emplace_back();
		else if (k == "replay") c.replay = true;
		else if (k == "event") {
			Event e;
			l >> e.client >> e.op >> e.nest >> e.tick >> w >> e.a >> e.b;
			e.kind = -1;
			for (int i = 0; i < EV_N; i++) if (w == ev_names[i]) e.kind = i;
			if (e.kind < 0) { err = "bad event: " + line; return false; }
			c.events.push_back(e);
		}
	}
	return true;
}
