// Which patterns backtrack more than a subject of 40 characters can be worth.
// stdin: mode \t pattern(hex of UTF-8) \t alphabet(hex) \t fragments(hex, 1f separated); stdout: 1 if it does, 2 if even hundreds of characters are no problem
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include <iostream>
#include <random>
#include <sstream>
#include <vector>
static std::string unhex(const std::string & h) {
	std::string r;
	for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
	return r;
}
int main() {
	std::string line;
	while (std::getline(std::cin, line)) {
		std::vector<std::string> f;
		std::stringstream ss(line);
		std::string x;
		while (std::getline(ss, x, '\t')) f.push_back(x);
		f.resize(4);
		const std::string pat = unhex(f[1]), al = unhex(f[2]);
		std::vector<std::string> pieces;
		for (size_t i = 0; i < al.size();) { size_t n = 1; while (i + n < al.size() && (al[i + n] & 0xc0) == 0x80) n++; pieces.push_back(al.substr(i, n)); i += n; }
		const size_t letters = pieces.size();
		std::stringstream fs(unhex(f[3]));
		while (std::getline(fs, x, '\x1f')) if (!x.empty()) pieces.push_back(x);
		if (pieces.empty()) pieces.push_back("a");
		int err; PCRE2_SIZE off;
		pcre2_code * c = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(pat.data()), pat.size(), PCRE2_UTF | PCRE2_NO_AUTO_POSSESS | PCRE2_NO_START_OPTIMIZE | (std::stoi(f[0]) & 1 ? PCRE2_MULTILINE | PCRE2_ALT_CIRCUMFLEX : PCRE2_DOTALL | PCRE2_DOLLAR_ENDONLY) | (std::stoi(f[0]) & 2 ? PCRE2_CASELESS : 0), &err, &off, nullptr);
		if (!c) { std::cout << "-1\n"; continue; }
		pcre2_match_data * md = pcre2_match_data_create(64, nullptr);
		pcre2_match_context * mc = pcre2_match_context_create(nullptr);
		pcre2_set_match_limit(mc, 20000);
		std::mt19937 g(7);
		bool blown = false;
		for (int k = 0; k < 1500 && !blown; k++) {
			std::string s;
			const size_t a = g() % pieces.size(), b = g() % (letters ? letters : 1), len = 10 + g() % 40;
			while (s.size() < len) s += k % 3 == 0 ? pieces[g() % pieces.size()] : g() % 6 ? pieces[a] : pieces[b];
			for (uint32_t opt : {0u, static_cast<uint32_t>(PCRE2_ANCHORED | PCRE2_ENDANCHORED)})
				if (pcre2_match(c, reinterpret_cast<PCRE2_SPTR>(s.data()), s.size(), 0, opt, md, mc) == PCRE2_ERROR_MATCHLIMIT) blown = true;
		}
		// and on long ones
		bool slow = blown;
		pcre2_set_match_limit(mc, 1500);
		for (int k = 0; k < 300 && !slow; k++) {
			std::string s;
			const size_t a = g() % pieces.size(), len = 300 + g() % 300, odd = k % 4 == 3 ? 3 : k % 4 == 2 ? 30 : 1000000;
			if (g() % 3 == 0) s += pieces[g() % pieces.size()];
			while (s.size() < len) s += g() % odd ? pieces[a] : pieces[g() % pieces.size()];
			if (g() % 2) s += pieces[g() % pieces.size()];
			for (uint32_t opt : {0u, static_cast<uint32_t>(PCRE2_ANCHORED | PCRE2_ENDANCHORED)})
				if (pcre2_match(c, reinterpret_cast<PCRE2_SPTR>(s.data()), s.size(), 0, opt, md, mc) == PCRE2_ERROR_MATCHLIMIT) slow = true;
		}
		std::cout << (blown ? 1 : slow ? 0 : 2) << "\n";
		pcre2_match_context_free(mc); pcre2_match_data_free(md); pcre2_code_free(c);
	}
}
