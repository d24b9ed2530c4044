import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
W="include/ctre/wrapper.hpp";E="include/ctre/evaluation.hpp";I="include/ctre/iterators.hpp";R="include/ctre/range.hpp";T="include/ctre/return_type.hpp";U="include/ctre/utf8.hpp"
p("C01","Concurrent, re-entrant and abandoned evaluations never influence each other",
"Any number of callers may use the same pattern object at the same time, re-enter it from inside a subject iterator or stream callback, or be stopped for good in the middle of an evaluation. Every operation that completes returns exactly what the same operation returns when it is run alone in a fresh process. No evaluation reads or writes memory that belongs to another caller.",
["schedules","crash_points","histories"],"every interleaving of any number of callers at the granularity of single memory accesses, every point at which a caller is interrupted, re-enters the library or dies, and every earlier history of operations on the same pattern",
"The tests are static_asserts: each evaluation runs alone inside the compiler, where no second caller, no interruption and no history exists.",
[W,E,I,T],[("pattern objects are empty constexpr values; all evaluation state lives in parameters and locals",W+" regular_expression, "+E+" evaluate"),("captures are threaded by value through the evaluation",T+" regex_results")],
["value of match/search/starts_with and of every lazy iterator step","addresses of the memory accesses made by library code"])
p("C02","search_all yields exactly the successive leftmost matches, under any history",
"Walking search_all (or the iterator form) yields, in order, exactly the successive leftmost matches of the subject with their captures: each search starts where the previous match ended (one character further on after an empty match), sees the text before it as context, and the walk finishes when no match is left or the last match ended at the end of the subject. Copies of an iterator, pre- and post-increment, re-walks of one range, and arbitrary interleaving, suspension or abandonment of several walks all observe that same sequence. Two iterators of one range compare equal exactly when they stand at the same step.",
["histories","schedules","inputs"],"every sequence of begin/copy/assign/increment/dereference/compare/abandon operations on any number of iterators over any supported pattern and subject, and every interleaving of several such walks",
"range.cpp only instantiates a few fixed loops at compile time; no test walks a range through copies, resumption or two iterators, and none has an empty match followed by more subject.",
[I,R,W],[("regex_iterator keeps orig_begin/current/end and the current match and searches again from current on increment",I+" regex_iterator::operator++"),("search method walks the start position",W+" search_method::exec")],
["sequence of matches and captures seen through each iterator","comparison results between iterators and with the sentinel"],
[("current","where the next search resumes",I+" regex_iterator"),("current_match","match shown to the caller; empty means exhausted",I+" regex_iterator")])
p("C03","split conserves the subject: pieces and delimiters reassemble it exactly",
"Walking split yields pieces which, joined by the delimiter matches between them, reproduce the whole subject from its first to its last character, with nothing lost, duplicated or reordered, whatever the history of copies, suspensions and interleaved walks. Each delimiter is the leftmost match at or after the previous delimiter's end, an empty match at the start of a piece or at the end of the subject not being a delimiter, and each piece shows the captures of the delimiter that ended it. The last piece always reaches the true end of the subject, and the walk ends after it.",
["histories","schedules","inputs"],"every supported delimiter pattern and subject, every history of operations on split iterators, and every interleaving of several walks",
"The tests contain only a handful of compile-time split loops with single-character delimiters and fixed subjects; conservation is a statement about every subject and every history of the iterator.",
[I,R,W],[("modify_match turns the delimiter match into the piece before it",I+" regex_split_iterator::modify_match"),("match_rest emits the final piece using the end propagated by a failed search",I+" regex_split_iterator::match_rest, "+W+" search_method::exec")],
["sequence of pieces and their captures"],
[("last_match","the final piece was emitted",I+" regex_split_iterator")])
p("C04","tokenize yields the contiguous token run from the start and then stops",
"Walking tokenize yields tokens that are contiguous from the first character: each token is the match anchored exactly at the end of the previous one, seen in the context of the text before it. The walk finishes at the first position where no token matches, after an empty token, or at the end of the subject, so a character that belongs to no token is never skipped and no token is emitted twice. This holds for any history of copies, suspensions and interleaved walks.",
["histories","schedules","inputs"],"every supported token pattern and subject, every history of operations on token iterators, and every interleaving of several walks",
"The tests tokenize two or three fixed strings once, at compile time; contiguity and the stop rule concern every subject and every way of walking it.",
[I,W],[("the tokenizing iterator re-evaluates the anchored pattern at the end of the last token",W+" tokenize_method, "+I+" regex_iterator::operator++")],
["sequence of tokens and their captures"])
p("C05","Every evaluation and every lazy walk terminates, and exhaustion is permanent",
"For every supported pattern and every finite subject, each match, search and starts_with evaluation finishes, and each search_all, split and tokenize walk reaches its end after at most (characters of the subject plus two) steps. Patterns and delimiters that match the empty string make progress like any other. Once a walk has reached its end it stays there: a further increment leaves it at the end and yields nothing.",
["inputs","histories","schedules"],"every supported pattern (nested, lazy and possessive repeats of content that can be empty or end in an assertion included), every subject, every history of increments past the end, under every delivery schedule of the subject once delivery goes on",
"A static_assert that ends is a single sample; the tests hold no empty-matching pattern in a lazy walk and no nested empty repeat followed by a failing tail, which is where progress is decided.",
[E,I,W],[("the block-empty-match flag keeps a repeat iteration from matching nothing for ever",E+" end_cycle_mark, not_empty_match, consumed_something"),("iterator increment has to advance",I+" operator++"),("exhausted iterators hold an empty match",I)],
["steps and simulated memory accesses used by an operation","state of an iterator after its end"],
[("block_empty_match","the current repeat iteration has consumed nothing yet","include/ctre/flags_and_modes.hpp flags")])
p("C06","Results and lazy iterators depend on nothing but the subject",
"A match result, a capture, and an iterator obtained from search_all, split, tokenize or iterator stay valid and unchanged for as long as the subject characters live. Pattern objects, ranges, temporary string views, iterators and other results may be copied, moved, assigned over, destroyed or overwritten in any order, from any caller, with no effect on the objects that remain. A range that outlives the expression that made it restarts from the beginning on every begin().",
["histories","crash_points","schedules"],"every order of creating, copying, assigning, destroying and reusing the storage of patterns, ranges, iterators, results and captures, including abandonment of the stack frame that created them",
"In constant evaluation every object lives to the end of the expression, so no test can observe an object that outlives the range, pattern or frame that made it.",
[R,I,T,W],[("ranges and iterators hold subject iterators by value",R+" regex_range, "+I),("results and captures hold subject iterators by value",T+" captured_content::storage"),("ranges are declared borrowed",R+" enable_borrowed_range")],
["results re-read after other objects were destroyed and their storage overwritten","accesses to dead storage made by library code"])
p("C07","The outcome does not depend on how or through what the subject is delivered",
"An evaluation over a subject that arrives piecemeal through forward or bidirectional iterators, with any chunking, delay, stall or interleaving of producer and consumer, gives the same match, captures and walk as the same text held complete in memory. The same holds between every supported subject form: iterator pairs, iterator and sentinel, zero-terminated text, string and string_view, UTF-8, wide, 16- and 32-bit text. A delivery that ends early gives exactly the outcome for the shorter text that did arrive.",
["schedules","fault_sequences","inputs"],"every schedule of a producer delivering the subject in pieces to any number of consumers blocked inside an evaluation, every early end of delivery, every subject form",
"The tests use complete compile-time strings, nearly always one string_view; a subject whose next character is not there yet does not exist for them.",
[W,E,U,T],[("evaluation only uses forward (or, for look-behind and boundaries, bidirectional) iterator operations and compares with the end before each read",E),("zero-terminated and UTF-8 sentinels",W+" zero_terminated_string_end_iterator, "+U)],
["value of each operation","reads requested from the subject iterators and their order relative to the end test"])
p("C08","No access outside the subject and no result outside it, whatever the bytes",
"No operation reads memory before the first or at or after the end of its subject (for zero-terminated text, after the terminator), or dereferences, increments past the end or decrements before the beginning any caller-supplied iterator, and no operation writes to the subject. Every match, capture and piece has begin <= end inside the subject. This holds for arbitrary, torn, truncated, bit-flipped and even concurrently changing bytes, malformed UTF-8 included, and bytes outside the subject never influence an outcome.",
["inputs","fault_sequences","schedules"],"every byte sequence as subject for every supported pattern and subject form, every truncation or corruption of it, every change of its bytes while an evaluation is under way, and every content of the neighbouring memory",
"A handful of well-formed literals inside the compiler cannot show what happens at the edges of a real buffer; malformed UTF-8 is tested with a few fixed samples and only for what it decodes to.",
[U,E,W,T],[("every read is guarded by a comparison with the end",E+" evaluate, match_string, match_against_range"),("UTF-8 decoding and stepping are bounded by the end of the text",U+" utf8_iterator::operator*, operator++, operator--"),("sentinel never passes the terminator",W+" zero_terminated_string_end_iterator")],
["addresses of all memory accesses made by library code","calls made on checked subject iterators","offsets of results"])
p("C09","Piping many subjects keeps order, exactly once, without reading ahead",
"Piping a range of subjects into match, search or starts_with yields the result of every matching subject exactly once, in source order, and nothing for the others, whatever the history of copies and increments. Looking at the k-th result never touches a subject beyond the one that produced it, so a live source is only asked for what is needed. The walk is at its end exactly when the source is exhausted, with every form of comparison with the end agreeing.",
["histories","schedules","inputs"],"every sequence of subjects, every blocking schedule of a live source, every history of iterator operations on the piped range and every interleaving of several of them",
"The tests only check one fixed vector at run time or compile time with an ordinary loop; a live source, copies of the iterator and the reversed comparison with the end are never exercised.",
[R,W],[("iterator advances the source to the next subject that matches",R+" multi_subject_range::iterator::find_first"),("end is the end of the source",R+" multi_subject_range::iterator comparisons")],
["sequence of results","requests made to the subject source"],
[("first","source position of the subject that produced current_result",R)])
p("C10","Nothing allocates but owning-string conversion, which never truncates",
"No evaluation, lazy walk, view or number conversion, comparison or copy ever allocates memory, so allocation failure at any moment cannot disturb it. Converting a result to an owning string either returns exactly the matched characters or, when memory runs out, stops the program; it never returns a shortened or altered string and never lets an exception escape. A failed allocation in one caller has no effect on any other caller.",
["fault_sequences","schedules"],"every allocation failing at every point of every operation, alone or in any combination, with other callers suspended in the middle of theirs",
"Constant evaluation has no failing allocator and the tests never replace it; the claim concerns the absence of allocation on every path.",
[T,W,E,I],[("evaluation works on values on the caller's stack",E),("to_string is the only owning conversion and is noexcept",T+" captured_content::storage::to_string")],
["calls of operator new and malloc during an operation","returned strings","termination"])
p("C11","Writing a result to a stream is exact, or visibly cut short",
"Writing a match or capture to an output stream sends exactly the matched characters, padded as the stream's width and fill say. When the stream's buffer writes short, fails or throws at any byte, what reached it is a prefix of that text and the stream state (or the exception the stream was set to throw) reports the failure. The result written, the subject and all other callers are unaffected, so a retry on a healthy stream gives the full text.",
["fault_sequences","schedules"],"every position and kind of failure of the stream buffer (short write, failure, exception, stall) for every result, width, fill and adjustment, with other callers interleaved",
"No test writes a result to a stream, let alone one that fails.",
[T],[("stream insertion delegates to the insertion of the matched view",T+" operator<<")],
["bytes received by the stream buffer","stream state and exceptions","the result after the failure"])
p("C12","A failing subject iterator stops the program, never yields a result",
"When a caller-supplied subject iterator or source throws in the middle of any evaluation or increment, the program is terminated: no result, no partial walk and no exception ever reaches the caller from that operation. When nothing throws, no operation terminates the program. Other callers that are in the middle of an operation are not affected up to that moment.",
["fault_sequences","crash_points"],"a failure at every single iterator call (dereference, increment, decrement, comparison) of every evaluation and every lazy step",
"A throwing iterator makes a static_assert ill-formed, so the compile-time tests cannot contain one.",
[W,E,I,R],[("all operations are noexcept",W+" exec, "+I+" operator++, "+R)],
["whether an operation returns, throws or terminates after the injected failure"])
# not applicable
p("N01","Matching follows the Perl-compatible semantics of the supported syntax",
"For every supported pattern and every subject, match, search and starts_with give the outcome Perl-compatible semantics prescribe: the leftmost match, chosen by pattern priority, with the same captures.",
["programs","inputs"],"every supported pattern and every subject",
"The tests hold about 4500 fixed pattern/subject pairs; the language is infinite.",
[E,"include/ctre/atoms_characters.hpp","include/ctre/atoms.hpp"],[("backtracking evaluation over the pattern type",E)],["match, captures"])
p("N02","Every supported pattern is accepted and every malformed one rejected",
"A pattern in the supported grammar compiles to its meaning and a malformed pattern is a compile-time error at the right position; no malformed pattern is silently accepted.",
["programs"],"every pattern text","The tests list fixed patterns; the grammar is infinite.",
["include/ctre/pcre.hpp","include/ctll/parser.hpp","include/ctre/pcre_actions.hpp"],[("LL(1) parser over the pattern text","include/ctll/parser.hpp")],["whether the pattern compiles"])
p("N03","The greedy-to-possessive optimisation never changes an outcome",
"Compiling with or without the greedy optimisation gives the same match and captures for every pattern and subject.",
["programs","inputs","configurations"],"every pattern, every subject, the optimisation on and off",
"The tests run in one configuration per compiler.",
["include/ctre/first.hpp",E],[("repeat becomes possessive when its first characters cannot collide with what follows","include/ctre/first.hpp collides, calculate_first")],["match, captures"])
p("N04","Compile-time and run-time evaluation agree",
"Any operation evaluated in a constant expression gives the same value as the same operation evaluated at run time.",
["programs","inputs","configurations"],"every pattern, subject and operation","The tests only evaluate at compile time.",
[E,W],[("one constexpr implementation",E)],["value at compile time and at run time"])
p("N05","Unicode properties and case folding follow the stated Unicode version",
"Every Unicode property, script and general-category test and every case-insensitive comparison accepts exactly the code points the documentation promises.",
["inputs"],"all 1,114,112 code points and every property name","The tests sample a few code points.",
["include/unicode-db/unicode-db.hpp","include/ctre/atoms_unicode.hpp"],[("generated tables","include/unicode-db/unicode-db.hpp")],["match of one code point"])
p("N06","Captures are numbered and named as in the pattern",
"Capture numbers follow the order of opening parentheses, names map to their groups, and structured bindings and get<> agree with both.",
["programs"],"every pattern with captures","The tests hold fixed patterns.",
["include/ctre/find_captures.hpp",T],[("captures found by walking the pattern type","include/ctre/find_captures.hpp")],["get<N>, get<name>, structured bindings"])
p("N07","Captured text converts to the exact number it spells",
"to_number gives the value the captured digits spell in the requested base, and reports or ignores malformed digits as documented.",
["inputs"],"every captured text and numeric type","The tests convert a few literals.",
[T],[("std::from_chars over the captured view",T+" to_number")],["returned number"])
p("N08","Valid UTF-8 subjects are matched code point by code point",
"Every well-formed UTF-8 subject is seen as exactly its sequence of code points, forwards and backwards.",
["inputs"],"every well-formed UTF-8 text","The tests decode fixed samples.",
[U],[("table-driven decoding",U+" utf8_iterator")],["code points seen"])
p("N09","Pattern literals keep their characters in every encoding",
"A pattern written as a narrow, UTF-8, UTF-16, UTF-32 or wide literal denotes the same code points, and malformed UTF-8 in a pattern is diagnosed.",
["programs"],"every pattern literal","The tests hold fixed literals.",
["include/ctll/fixed_string.hpp"],[("compile-time decoding of the literal","include/ctll/fixed_string.hpp")],["the pattern's meaning"])
p("N10","The released single header equals the library headers",
"A program compiled against the single-header release behaves as one compiled against the include tree of the same release.",
["configurations"],"every program","Only a syntax check of the single header is run.",
["single-header/ctre.hpp"],[("generated by inlining the headers","Makefile")],["program behaviour"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
