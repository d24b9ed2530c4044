// Instrumented side: thin adapters that call the library under test.
// Every translation unit including this is compiled with memory-access
// instrumentation, so each access the library makes is a simulator event.
#pragma once
#include <ctre.hpp>
#include <new>
#include <optional>
#include <ostream>
#include <span>
#include <string>
#include <string_view>
#include "rt_api.hpp"

#ifndef SIM_LAZY
#define SIM_LAZY 7
#endif
#ifndef SIM_EVAL
#define SIM_EVAL 7
#endif

namespace sim {

// sentinel; the library reverses iterators for look-behind, so it has to look like an iterator
struct End {
	using iterator_category = std::bidirectional_iterator_tag;
	using value_type = char;
	using difference_type = int;
	using pointer = const char *;
	using reference = char &;
	auto operator++() noexcept -> End &;
	auto operator++(int) noexcept -> End;
	auto operator--() noexcept -> End &;
	auto operator--(int) noexcept -> End;
	friend auto operator==(End, End) noexcept -> bool;
	auto operator*() noexcept -> reference;
};

template <typename Cat, typename C> struct Iter {
	using iterator_category = Cat;
	using value_type = C;
	using difference_type = std::ptrdiff_t;
	using pointer = const C *;
	using reference = C;
	const Stream * s = nullptr;
	int p = 0;
	Iter & operator++() { sim_inc(s, p); ++p; return *this; }
	Iter operator++(int) { Iter t = *this; ++*this; return t; }
	Iter & operator--() { sim_dec(s, p); --p; return *this; }
	Iter operator--(int) { Iter t = *this; --*this; return t; }
	C operator*() const { return static_cast<C>(sim_deref(s, p)); }
	friend bool operator==(const Iter & a, const Iter & b) { sim_cmp(a.s, b.s); return a.p == b.p && a.s == b.s; }
	friend bool operator!=(const Iter & a, const Iter & b) { return !(a == b); }
	friend bool operator==(const Iter & a, End) { return sim_at_end(a.s, a.p); }
	friend bool operator!=(const Iter & a, End) { return !sim_at_end(a.s, a.p); }
	Iter & operator+=(std::ptrdiff_t n) { sim_jump(s, p, n); p += static_cast<int>(n); return *this; }
	Iter & operator-=(std::ptrdiff_t n) { return *this += -n; }
	C operator[](std::ptrdiff_t n) const { return *(*this + n); }
	friend Iter operator+(Iter a, std::ptrdiff_t n) { return a += n; }
	friend Iter operator+(std::ptrdiff_t n, Iter a) { return a += n; }
	friend Iter operator-(Iter a, std::ptrdiff_t n) { return a += -n; }
	friend std::ptrdiff_t operator-(const Iter & a, const Iter & b) { sim_cmp(a.s, b.s); return a.p - b.p; }
	friend bool operator<(const Iter & a, const Iter & b) { sim_cmp(a.s, b.s); return a.p < b.p; }
	friend bool operator>(const Iter & a, const Iter & b) { return b < a; }
	friend bool operator<=(const Iter & a, const Iter & b) { return !(b < a); }
	friend bool operator>=(const Iter & a, const Iter & b) { return !(a < b); }
	friend bool operator==(End, const Iter & a) { return sim_at_end(a.s, a.p); }
	friend bool operator!=(End, const Iter & a) { return !sim_at_end(a.s, a.p); }
};
using Bidi = Iter<std::bidirectional_iterator_tag, char>;
using Fwd = Iter<std::forward_iterator_tag, char>;
using Ra = Iter<std::random_access_iterator_tag, char>;

// a container: a copy has characters of its own, and they are gone with it
struct CharRange {
	const char * b;
	const char * e;
	bool own = false;
	CharRange(const char * f, const char * l): b(f), e(l) { }
	CharRange(const CharRange & o): own(true) {
		const size_t n = static_cast<size_t>(o.e - o.b);
		char * q = new char[n + 1];
		for (size_t i = 0; i < n; i++) q[i] = o.b[i];
		b = q;
		e = q + n;
	}
	CharRange & operator=(const CharRange &) = delete;
	~CharRange() {
		if (!own) return;
		for (char * q = const_cast<char *>(b); q != e; ++q) *q = '\xDD';
		delete[] b;
	}
	const char * begin() const { return b; }
	const char * end() const { return e; }
};

#ifdef CTRE_ENABLE_UTF8_RANGE
// what std::u8string is to the library, its characters being the subject's
struct U8Range {
	const char8_t * b;
	const char8_t * e;
	const char8_t * begin() const { return b; }
	const char8_t * end() const { return e; }
	operator std::u8string_view() const { return {b, static_cast<size_t>(e - b)}; }
};
#endif

struct SrcEnd { };
// views come by value, containers stay where they are
template <typename Elem> struct SrcIter {
	static constexpr bool views = std::is_same_v<Elem, std::string_view>;
	using iterator_category = std::forward_iterator_tag;
	using value_type = Elem;
	using difference_type = std::ptrdiff_t;
	using pointer = const Elem *;
	using reference = std::conditional_t<views, Elem, const Elem &>;
	const Source * s = nullptr;
	int p = 0;
	SrcIter & operator++() { src_inc(s, p); ++p; return *this; }
	SrcIter operator++(int) { SrcIter t = *this; ++*this; return t; }
	reference operator*() const {
		if constexpr (views) { SvRaw r = src_deref(s, p); return Elem(r.p, r.n); }
		else return *static_cast<const Elem *>(src_element(s, p));
	}
	friend bool operator==(const SrcIter & a, const SrcIter & b) { return a.p == b.p && a.s == b.s; }
	friend bool operator!=(const SrcIter & a, const SrcIter & b) { return !(a == b); }
	friend bool operator==(const SrcIter & a, SrcEnd) { return src_at_end(a.s, a.p); }
	friend bool operator!=(const SrcIter & a, SrcEnd) { return !src_at_end(a.s, a.p); }
	friend bool operator==(SrcEnd, const SrcIter & a) { return src_at_end(a.s, a.p); }
	friend bool operator!=(SrcEnd, const SrcIter & a) { return !src_at_end(a.s, a.p); }
};
template <typename Elem> struct SrcRange {
	const Source * s = nullptr;
	SrcIter<Elem> begin() const { return SrcIter<Elem>{s, 0}; }
	SrcEnd end() const { return {}; }
};

template <int F, int Api, typename Fn> decltype(auto) with_src(const Src & s, Fn && fn) {
	if constexpr (F == F_PTR) {
		const char * b = static_cast<const char *>(s.data);
		return fn(b, b + s.len);
	} else if constexpr (F == F_ZT) {
		return fn(static_cast<const char *>(s.data));
	} else if constexpr (F == F_SV) {
		return fn(std::string_view(static_cast<const char *>(s.data), s.len));
	} else if constexpr (F == F_BIDI_S) {
		return fn(Bidi{s.stream, 0}, End{});
	} else if constexpr (F == F_BIDI) {
		return fn(Bidi{s.stream, 0}, Bidi{s.stream, sim_length(s.stream)});
	} else if constexpr (F == F_FWD_S) {
		return fn(Fwd{s.stream, 0}, End{});
	} else if constexpr (F == F_RA) {
		return fn(Ra{s.stream, 0}, Ra{s.stream, sim_length(s.stream)});
	} else if constexpr (F == F_SPAN) {
		return fn(std::span<const char>(static_cast<const char *>(s.data), s.len));
#ifdef CTRE_ENABLE_UTF8_RANGE
	} else if constexpr (F == F_U8) {
		const char8_t * b = static_cast<const char8_t *>(s.data);
		if constexpr (Api == 1) { U8Range r{b, b + s.len}; return fn(r); }
		else return fn(std::u8string_view(b, s.len));
#endif
	} else if constexpr (F == F_U32) {
		return fn(std::u32string_view(static_cast<const char32_t *>(s.data), s.len));
	} else if constexpr (F == F_U16) {
		return fn(std::u16string_view(static_cast<const char16_t *>(s.data), s.len));
	} else if constexpr (F == F_W) {
		return fn(std::wstring_view(static_cast<const wchar_t *>(s.data), s.len));
	} else if constexpr (F == F_WZT) {
		return fn(static_cast<const wchar_t *>(s.data));
	} else {
		const char * b = static_cast<const char *>(s.data);
		CharRange r{b, b + s.len};
		return fn(r);
	}
}

template <typename It> long offset_of(It it, const Src & s, bool & foreign) {
	if constexpr (std::is_pointer_v<It>) {
		return static_cast<long>(it - static_cast<It>(s.data));
	} else if constexpr (std::is_same_v<It, Bidi> || std::is_same_v<It, Fwd> || std::is_same_v<It, Ra>) {
		if (it.s != s.stream) foreign = true;
		return it.p;
	} else {
		using P = const typename std::iterator_traits<It>::value_type *;
		return static_cast<long>(&*it - static_cast<P>(s.data)); // contiguous class type
	}
}

template <typename R, size_t... I> void record(const R & m, Rec * rec, const Src & s, std::index_sequence<I...>, int how) {
	rec_begin(rec, bool(m), static_cast<int>(sizeof...(I)));
	if (!m) return;
	auto one = [&](int i, auto && cap) {
		bool foreign = false;
		long b = -1, e = -1;
		const bool on = bool(cap);
		if (on) {
			b = offset_of(cap.begin(), s, foreign);
			e = offset_of(cap.end(), s, foreign);
		}
		rec_cap(rec, i, on, b, e, foreign);
	};
	if (how == 0) (one(static_cast<int>(I), m.template get<I>()), ...);
	else {
		// a capture stays what it is, whatever becomes of the result it came from
		auto alone = [&](auto i) {
			constexpr size_t N = decltype(i)::value;
			R other(m);
			if constexpr (N % 2 == 0) { auto && c = other.template get<N>(); other = R{}; one(static_cast<int>(N), c); }
			else { using ctre::get; auto && c = get<N>(other); other = R{}; one(static_cast<int>(N), c); }
		};
		(alone(std::integral_constant<size_t, I>{}), ...);
	}
}
template <typename R> void record(const R & m, Rec * rec, const Src & s, int how = 0) {
	record(m, rec, s, std::make_index_sequence<R::count()>(), how);
}

// the ways to name one operation: the variables; the members of a pattern literal; a copy of a variable
// with the mode given as a modifier, through the pattern-matching interface
#define SIM_CS(NAME) NAME<P, ctre::case_sensitive>
#define SIM_API(NAME, VAR, OLD) \
	template <int Api, int Mode, ctll::fixed_string P> struct NAME { \
		template <typename... A> static auto call(A &&... a) { \
			if constexpr (Api == 2 && Mode == 0) { const auto one = ctre::OLD; return one.try_extract(std::forward<A>(a)...); } \
			else if constexpr (Api == 2 || Mode >= 2) { const auto one = obj(); return one(std::forward<A>(a)...); } \
			else if constexpr (Api == 0 && Mode == 0) return ctre::VAR<P>(std::forward<A>(a)...); \
			else if constexpr (Api == 0) return ctre::multiline_##VAR<P>(std::forward<A>(a)...); \
			else if constexpr (Mode == 0) return re().NAME(std::forward<A>(a)...); \
			else return re().multiline_##NAME(std::forward<A>(a)...); \
		} \
		static auto re() { return ctre::literals::operator""_ctre<P>(); } \
		static const auto & obj() { \
			if constexpr (Mode == 3) return ctre::multiline_##VAR<P, ctre::case_insensitive>; \
			else if constexpr (Mode == 2) return ctre::VAR<P, ctre::case_insensitive>; \
			else if constexpr (Mode == 1 && Api == 2) return ctre::VAR<P, ctre::multiline>; \
			else if constexpr (Mode == 1) return ctre::multiline_##VAR<P>; \
			else return ctre::VAR<P>; \
		} \
	};
SIM_API(match, match, SIM_CS(match))
SIM_API(search, search, SIM_CS(search))
SIM_API(starts_with, starts_with, SIM_CS(starts_with))
SIM_API(range, search_all, range<P>)
SIM_API(split, split, split<P>)
SIM_API(tokenize, tokenize, tokenize<P>)
SIM_API(iterator, iterator, iterator<P>)

#define SIM_SUPPORTS(method) (((SIM_EVAL) >> (method)) & 1)
#define SIM_KIND(kind) (((SIM_LAZY) >> (kind)) & 1)

template <int Api, int Mode, int F, ctll::fixed_string P> struct Adapter {
	template <template <int, int, ctll::fixed_string> class Op> static auto run(const Src & s) {
		return with_src<F, Api>(s, [](auto &&... a) { return Op<Api, Mode, P>::call(std::forward<decltype(a)>(a)...); });
	}
	// through an object of the pattern type that lives only during the call, or through a pipe
	template <template <int, int, ctll::fixed_string> class Op> static auto run_how(int how, const Src & s) {
		if constexpr (Api == 0 && (F == F_SV || F == F_RANGE || F == F_SPAN)) {
			if (how == 1) return with_src<F, Api>(s, [](auto && a) { const auto pattern = Op<Api, Mode, P>::obj(); return std::forward<decltype(a)>(a) | pattern; });
		}
		return run<Op>(s);
	}
	using Res = decltype(run<match>(std::declval<const Src &>()));
	static constexpr bool contiguous = F != F_BIDI_S && F != F_BIDI && F != F_FWD_S && F != F_RA;
	static constexpr bool narrow = F == F_PTR || F == F_ZT || F == F_SV || F == F_RANGE || F == F_SPAN;

	static void res_make(int method, int, void * mem, const Src & s) {
#if SIM_EVAL & 1
		if (method == M_MATCH) new (mem) Res(run<match>(s));
#endif
#if SIM_EVAL & 2
		if (method == M_SEARCH) new (mem) Res(run<search>(s));
#endif
#if SIM_EVAL & 4
		if (method == M_STARTS) new (mem) Res(run<starts_with>(s));
#endif
	}
	static const Res & res(const void * m) { return *static_cast<const Res *>(m); }
	static void res_read(int how, const void * mem, Rec * rec, const Src & s) { record(res(mem), rec, s, how); }
	static void res_copy(int how, void * d, void * s) {
		if (how == 1) new (d) Res(std::move(*static_cast<Res *>(s)));
		else if (how == 2) { Res * r = new (d) Res(); *r = res(s); }
		else new (d) Res(res(s));
	}
	static void res_assign(int how, void * d, void * s) { if (how) *static_cast<Res *>(d) = std::move(*static_cast<Res *>(s)); else *static_cast<Res *>(d) = res(s); }
	static void res_drop(void * m) { static_cast<Res *>(m)->~Res(); }

#ifdef SIM_CONV
	template <typename M> static void conv_one(int what, const M & m, Rec * rec, void * os, const Src & s) {
		(void)os; (void)s;
		using C = typename M::char_type;
		switch (what) {
		case CV_STRING: { auto str = m.to_string(); rec_text(rec, str.data(), str.size(), sizeof(C)); } break;
		case CV_OPT_STRING: { auto str = m.to_optional_string(); if (str) rec_text(rec, str->data(), str->size(), sizeof(C)); else rec_long(rec, -1); } break;
		// called by name: a cast may pick the constructor of std::basic_string from a view, which isn't the library's
		case CV_STR_CAST: { auto str = m.operator std::basic_string<C>(); rec_text(rec, str.data(), str.size(), sizeof(C)); } break;
		case CV_SIZE: rec_long(rec, static_cast<long>(m.size())); break;
		case CV_VIEW: if constexpr (contiguous) {
			auto v = m.to_view(); rec_text(rec, v.data(), v.size(), sizeof(C));
			auto o = m.to_optional_view(); rec_long(rec, o ? static_cast<long>(o->size()) : -1);
		} break;
		case CV_NUMBER: if constexpr (narrow) { rec_long(rec, m.template to_number<long>()); } break;
		case CV_COMPARE: if constexpr (contiguous) { auto v = m.to_view(); rec_long(rec, (m == v ? 1 : 0) + (m != v ? 2 : 0)); } break;
		case CV_STR: { auto str = m.str(); rec_text(rec, str.data(), str.size(), sizeof(C)); } break;
		case CV_VIEW2: if constexpr (contiguous) {
			auto v = m.view(); rec_text(rec, v.data(), v.size(), sizeof(C));
			std::basic_string_view<C> w = m; rec_text(rec, w.data(), w.size(), sizeof(C));
			auto o = m.operator std::optional<std::basic_string_view<C>>(); if (o) rec_text(rec, o->data(), o->size(), sizeof(C)); else rec_long(rec, -1);
		} break;
		case CV_OPT_CAST: { auto str = m.operator std::optional<std::basic_string<C>>(); if (str) rec_text(rec, str->data(), str->size(), sizeof(C)); else rec_long(rec, -1); } break;
		case CV_ITERATE: { const auto e = m.end(); for (auto it = m.begin(); it != e; ++it) rec_char(rec, static_cast<uint32_t>(static_cast<std::make_unsigned_t<std::decay_t<decltype(*it)>>>(*it))); } break;
		case CV_DATA: if constexpr (contiguous) { rec_text(rec, m.data(), m.to_view().size(), sizeof(C)); } break;
		case CV_COMPARE_ALL: if constexpr (contiguous) {
			const std::basic_string_view<C> all(static_cast<const C *>(s.data), s.len);
			rec_long(rec, (m == all ? 1 : 0) | (m != all ? 2 : 0) | (all == m ? 4 : 0) | (all != m ? 8 : 0));
		} break;
		case CV_NUMBERS: if constexpr (narrow) {
			rec_long(rec, m.template to_number<int>());
			rec_long(rec, m.template to_number<unsigned char>(16));
			auto o = m.template to_optional_number<long>(8); rec_long(rec, o ? 1 : 0); rec_long(rec, o ? *o : 0);
		} break;
		case CV_OSTREAM: if constexpr (narrow) { if (os) *static_cast<std::ostream *>(os) << m; } break;
		}
	}
	template <size_t... I> static void conv_caps(int what, int cap, const Res & m, Rec * rec, void * os, const Src & s, std::index_sequence<I...>) {
		((static_cast<int>(I) + 1 == cap ? conv_one(what, m.template get<I + 1>(), rec, os, s) : void()), ...);
	}
	static void res_conv(int what, int cap, const void * mem, Rec * rec, void * os, const Src & s) {
		if (cap == 0) conv_one(what, res(mem), rec, os, s);
		else conv_caps(what, cap, res(mem), rec, os, s, std::make_index_sequence<Res::count() - 1>());
	}
#else
	static constexpr auto res_conv = nullptr;
#endif

	template <int K> struct Lazy;
	template <int K> static auto make_range(int how, const Src & s) {
		if constexpr (K == K_ALL) return run_how<range>(how, s);
		else if constexpr (K == K_SPLIT) return run_how<split>(how, s);
		else return run_how<tokenize>(how, s);
	}
	template <int K> using Range = decltype(make_range<K>(0, std::declval<const Src &>()));
	template <int K> using It = decltype(std::declval<const Range<K> &>().begin());

	template <typename Fn> static void dispatch(int kind, Fn && fn) {
#if SIM_LAZY & 1
		if (kind == K_ALL) fn(std::integral_constant<int, K_ALL>{});
#endif
#if SIM_LAZY & 2
		if (kind == K_SPLIT) fn(std::integral_constant<int, K_SPLIT>{});
#endif
#if SIM_LAZY & 4
		if (kind == K_TOK) fn(std::integral_constant<int, K_TOK>{});
#endif
		(void)kind; (void)fn;
	}
#define SIM_K constexpr int K = decltype(k)::value; using R [[maybe_unused]] = Range<K>; using I [[maybe_unused]] = It<K>
	static void range_make(int kind, int how, void * mem, const Src & s) { dispatch(kind, [&](auto k) { SIM_K; new (mem) R(make_range<K>(how, s)); }); }
	static void range_copy(int kind, void * d, const void * s) { dispatch(kind, [&](auto k) { SIM_K; new (d) R(*static_cast<const R *>(s)); }); }
	static void range_assign(int kind, void * d, const void * s) { dispatch(kind, [&](auto k) { SIM_K; *static_cast<R *>(d) = *static_cast<const R *>(s); }); }
	static void range_drop(int kind, void * m) { dispatch(kind, [&](auto k) { SIM_K; static_cast<R *>(m)->~R(); }); }
	static void range_begin(int kind, const void * r, void * it) { dispatch(kind, [&](auto k) { SIM_K; new (it) I(static_cast<const R *>(r)->begin()); }); }
	static void it_make(int kind, int how, void * it, const Src & s) {
		dispatch(kind, [&](auto k) { SIM_K;
			if constexpr (K == K_ALL) { if (how == 2) { new (it) I(run<iterator>(s)); return; } }
			new (it) I(make_range<K>(how, s).begin());
		});
	}
	static void it_copy(int kind, int how, void * d, void * s) { dispatch(kind, [&](auto k) { SIM_K; if (how == 2) { I * i = new (d) I(); *i = *static_cast<const I *>(s); } else if (how) new (d) I(std::move(*static_cast<I *>(s))); else new (d) I(*static_cast<const I *>(s)); }); }
	static void it_assign(int kind, int how, void * d, void * s) { dispatch(kind, [&](auto k) { SIM_K; if (how) *static_cast<I *>(d) = std::move(*static_cast<I *>(s)); else *static_cast<I *>(d) = *static_cast<const I *>(s); }); }
	static void it_drop(int kind, void * m) { dispatch(kind, [&](auto k) { SIM_K; static_cast<I *>(m)->~I(); }); }
	static void it_inc(int kind, void * m) { dispatch(kind, [&](auto k) { SIM_K; ++*static_cast<I *>(m); }); }
	static void it_postinc(int kind, void * m, void * prev) { dispatch(kind, [&](auto k) { SIM_K; new (prev) I((*static_cast<I *>(m))++); }); }
	static bool it_end(int kind, int how, const void * m) {
		bool r = false;
		dispatch(kind, [&](auto k) { SIM_K; const I & it = *static_cast<const I *>(m);
			switch (how) {
			case 0: r = (it == ctre::sentinel); break;
			case 1: r = (ctre::sentinel == it); break;
			case 2: r = !(it != ctre::sentinel); break;
			default: r = !(ctre::sentinel != it); break;
			}
		});
		return r;
	}
	static int it_eq(int kind, const void * a, const void * b) {
		int r = 0;
		dispatch(kind, [&](auto k) { SIM_K; const I & x = *static_cast<const I *>(a); const I & y = *static_cast<const I *>(b); r = (x == y ? 1 : 0) | (x != y ? 2 : 0); });
		return r;
	}
	static void it_read(int kind, int how, const void * m, Rec * rec, const Src & s) {
		dispatch(kind, [&](auto k) { SIM_K; const I & it = *static_cast<const I *>(m);
			if (how) { auto c = *it; record(c, rec, s); } else { const auto & c = *it; record(c, rec, s); }
		});
	}
	static void it_result(int kind, const void * m, void * resmem) { dispatch(kind, [&](auto k) { SIM_K; new (resmem) Res(**static_cast<const I *>(m)); }); }

#ifdef SIM_PIPE
	template <int M> static auto make_pipe(const Source * s) {
		using Range = SrcRange<std::conditional_t<Api == 1, CharRange, std::string_view>>;
		auto through = [&](const auto & pattern) {
			if constexpr (Api == 2) return *static_cast<const Range *>(src_range(s)) | pattern;
			else return Range{s} | pattern;
		};
		if constexpr (M == M_MATCH) return through(match<Api, Mode, P>::obj());
		else if constexpr (M == M_SEARCH) return through(search<Api, Mode, P>::obj());
		else return through(starts_with<Api, Mode, P>::obj());
	}
	template <int M> using PRange = decltype(make_pipe<M>(nullptr));
	template <int M> using PIt = decltype(std::declval<const PRange<M> &>().begin());
	template <typename Fn> static void pdispatch(int m, Fn && fn) {
		if (m == M_MATCH) fn(std::integral_constant<int, M_MATCH>{});
		else if (m == M_SEARCH) fn(std::integral_constant<int, M_SEARCH>{});
		else fn(std::integral_constant<int, M_STARTS>{});
	}
#define SIM_P constexpr int K = decltype(k)::value; using R [[maybe_unused]] = PRange<K>; using I [[maybe_unused]] = PIt<K>
	static void pipe_make(int m, void * mem, const Source * s) { pdispatch(m, [&](auto k) { SIM_P; new (mem) R(make_pipe<K>(s)); }); }
	static void pipe_begin(int m, const void * r, void * it) { pdispatch(m, [&](auto k) { SIM_P; new (it) I(static_cast<const R *>(r)->begin()); }); }
	static void pipe_copy(int m, int how, void * d, void * s) {
		pdispatch(m, [&](auto k) { SIM_P;
			if (how == 2) { I * i = new (d) I(); *i = *static_cast<const I *>(s); } else if (how) new (d) I(std::move(*static_cast<I *>(s))); else new (d) I(*static_cast<const I *>(s));
		});
	}
	static void pipe_assign(int m, int how, void * d, void * s) {
		pdispatch(m, [&](auto k) { SIM_P; if (how) *static_cast<I *>(d) = std::move(*static_cast<I *>(s)); else *static_cast<I *>(d) = *static_cast<const I *>(s); });
	}
	static void pipe_inc(int m, void * it) { pdispatch(m, [&](auto k) { SIM_P; ++*static_cast<I *>(it); }); }
	static void pipe_postinc(int m, void * it, void * prev) { pdispatch(m, [&](auto k) { SIM_P; new (prev) I((*static_cast<I *>(it))++); }); }
	static bool pipe_end(int m, int how, const void * itm, const void * rm) {
		bool r = false;
		pdispatch(m, [&](auto k) { SIM_P; const I & it = *static_cast<const I *>(itm); const auto e = static_cast<const R *>(rm)->end();
			switch (how) {
			case 0: r = (it == e); break;
			case 1: r = (e == it); break;
			case 2: r = !(it != e); break;
			default: r = !(e != it); break;
			}
		});
		return r;
	}
	static int pipe_eq(int m, const void * a, const void * b) {
		int r = 0;
		pdispatch(m, [&](auto k) { SIM_P; const I & x = *static_cast<const I *>(a); const I & y = *static_cast<const I *>(b); r = (x == y ? 1 : 0) | (x != y ? 2 : 0); });
		return r;
	}
	static void pipe_read(int m, int how, const void * itm, Rec * rec, const char * base) {
		pdispatch(m, [&](auto k) { SIM_P; const I & it = *static_cast<const I *>(itm); Src s{base, 0, nullptr};
			if (how == 0) { const auto & c = *it; record(c, rec, s); } else if (how == 1) { auto c = *it; record(c, rec, s); } else { auto c = *it.operator->(); record(c, rec, s); }
		});
	}
	static void pipe_drop(int what, int m, void * mem) { pdispatch(m, [&](auto k) { SIM_P; if (what) static_cast<I *>(mem)->~I(); else static_cast<R *>(mem)->~R(); }); }
#endif

	static Table table(int pattern) {
		Table t{};
		t.pattern = pattern; t.form = F; t.mode = Mode; t.ncaps = static_cast<int>(Res::count());
		t.evals = SIM_EVAL; t.lazies = SIM_LAZY;
#ifdef SIM_CONV
		t.conv = 1;
#endif
#ifdef SIM_PIPE
		t.pipe = 1;
#endif
		t.res_size = sizeof(Res);
		t.res_make = res_make; t.res_read = res_read; t.res_copy = res_copy; t.res_assign = res_assign; t.res_drop = res_drop; t.res_conv = res_conv;
#if SIM_LAZY
		for (int i = 0; i < 3; i++) dispatch(i, [&](auto k) { SIM_K; t.it_size[K] = sizeof(I); if (sizeof(R) > t.range_size) t.range_size = sizeof(R); });
		t.range_make = range_make; t.range_copy = range_copy; t.range_assign = range_assign; t.range_drop = range_drop; t.range_begin = range_begin; t.it_make = it_make; t.it_copy = it_copy;
		t.it_assign = it_assign; t.it_drop = it_drop; t.it_inc = it_inc; t.it_postinc = it_postinc; t.it_end = it_end; t.it_eq = it_eq; t.it_read = it_read; t.it_result = it_result;
#endif
#ifdef SIM_PIPE
		t.pipe_range_size = sizeof(PRange<0>); t.pipe_it_size = sizeof(PIt<0>);
		t.pipe_make = pipe_make; t.pipe_begin = pipe_begin; t.pipe_copy = pipe_copy; t.pipe_assign = pipe_assign; t.pipe_inc = pipe_inc; t.pipe_postinc = pipe_postinc;
		t.pipe_end = pipe_end; t.pipe_eq = pipe_eq; t.pipe_read = pipe_read; t.pipe_drop = pipe_drop;
#endif
		return t;
	}
};

template <int Api, int Mode, int F, ctll::fixed_string P> struct Registrar {
	Table t;
	Registrar(int pattern): t(Adapter<Api, Mode, F, P>::table(pattern)) { register_table(&t); }
};

} // namespace sim

#define SIM_ENTRY2(line, id, api, mode, form, pat) static sim::Registrar<api, mode, form, pat> reg_##line(id);
#define SIM_ENTRY1(line, id, api, mode, form, pat) SIM_ENTRY2(line, id, api, mode, form, pat)
#define SIM_ENTRY(id, api, mode, form, pat) SIM_ENTRY1(__COUNTER__, id, api, mode, form, pat)
