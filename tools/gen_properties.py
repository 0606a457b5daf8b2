import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":["include/lexertl/"+f for f in files],"mechanism":[{"name":n,"where":"include/lexertl/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"include/lexertl/"+w} for n,m,w in state]
    a["observe_at"]=obs or ["lexertl::lookup on a built state machine"]
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="The test suite tokenises about twenty fixed strings with fixed non-greedy rules and otherwise only checks error messages; "
p("P01","Longest match wins, ties go to the earliest rule",
"At every position the lexer returns the longest prefix of the remaining input that any rule of the current lexer state matches, and when several rules match that same longest prefix it reports the id and user id of the rule that was added first. If no rule matches a non-empty prefix it reports the reserved no-match id for exactly one character and carries on after it.",
["programs","inputs"],"all ordered rule sets of ordinary greedy rules, all inputs",
T+"longest match and priority are statements over every rule set and every input.",
["generator.hpp","lookup.hpp","partition/equivset.hpp","partition/charset.hpp","parser/parser.hpp"],
[("subset construction","generator.hpp"),("end state priority in closure","generator.hpp"),("longest match loop","lookup.hpp")])
p("P02","Every regex operator denotes its documented language",
"A rule matches exactly the strings its regex denotes: concatenation, alternation, grouping, ?, *, +, {n}, {n,}, {n,m}, quoted literals, comments and inline option groups compose freely at any nesting depth. Which operator spelling is used makes no difference to the tokens produced ({0,1} is ?, {1,} is +, {0,} is *, and {n} is n copies).",
["programs","inputs"],"all regexes over the operator set, all inputs",
T+"operator composition (nested repeats, nullable parts, copies of subtrees) is only meaningful over all regexes.",
["parser/parser.hpp","parser/tree/*.hpp","parser/tokeniser/re_tokeniser.hpp","generator.hpp"],
[("operator-precedence parser and syntax tree","parser/parser.hpp"),("firstpos/followpos and node copying","parser/tree"),("repeat bounds","parser/tokeniser/re_tokeniser.hpp")])
p("P03","Character classes, escapes and dot denote exactly the documented set",
"For 8-bit machines every single-character regex form - literal, escape (octal, hex, control, named), shortcut class, POSIX class and its negation, bracket list, range, negated bracket, {-} difference, {+} union and dot under each newline option - matches exactly the documented set out of all 256 characters and nothing else. Distinct spellings of the same set give the same tokens.",
["programs","inputs"],"all class expressions in the enumerated grammar, all 256 byte values",
T+"class membership has to be right for every one of the 256 bytes and for every way to write a set.",
["parser/tokeniser/re_tokeniser_helper.hpp","parser/tokeniser/re_tokeniser.hpp","string_token.hpp","rules.hpp"],
[("bracket expression reader","parser/tokeniser/re_tokeniser_helper.hpp"),("range set operations","string_token.hpp"),("difference/union of sets","rules.hpp")])
p("P04","Case-insensitive matching adds exactly the case variants",
"With case-insensitivity switched on by flag or inline option, a rule matches a text if and only if the case-sensitive rule matches some text that differs from it only in letter case; switched off again (option group ends or is negated) it matches case-sensitively. This holds for literals, ranges, classes and quoted strings, in narrow and wide machines; a negated class excludes all case variants of what it lists.",
["programs","inputs"],"all patterns of the enumerated grammar under every option nesting, all characters",
T+"no test uses the option at all.",
["parser/tokeniser/re_tokeniser.hpp","parser/tokeniser/re_tokeniser_helper.hpp"],
[("case folding of single characters and ranges","parser/tokeniser/re_tokeniser_helper.hpp"),("option stack","parser/tokeniser/re_tokeniser.hpp")])
p("P05","Any text is either a valid regex or cleanly rejected",
"Adding a rule with an arbitrary text either throws the library's runtime error or yields a rule set that can be built or is rejected by the build with the same error type; it never crashes, hangs, reads out of bounds or trips an assertion. The texts accepted are exactly those of the documented grammar, and an accepted text means what that grammar says.",
["inputs"],"all character strings as regex or macro text, under every regex option",
"The 84 malformed-regex tests sample one text per message; acceptance and memory safety are claims about every string.",
["parser/tokeniser/re_tokeniser.hpp","parser/tokeniser/re_tokeniser_helper.hpp","rules.hpp","abstemious.hpp","parser/parser.hpp","parser/tokeniser/re_token.hpp"],
[("tokeniser error checks","parser/tokeniser/re_tokeniser.hpp"),("precedence table","parser/tokeniser/re_token.hpp")],obs=["rules push / macro insertion, build, lookup"])
p("P06","A leading ^ restricts a rule to the beginning of a line",
"A rule starting with ^ matches only where the token starts at the beginning of the input (if so started) or directly after a newline, and there it matches what the rest of the regex matches; its presence does not change what other rules match anywhere. The beginning-of-line status is tracked correctly across matches, skipped tokens, no-match characters and lexer state changes.",
["programs","inputs","histories"],"all rule sets mixing anchored and unanchored rules, all inputs with newlines, both initial settings",
T+"^ is only touched by parse-error tests.",
["lookup.hpp","generator.hpp","parser/parser.hpp","rules.hpp"],
[("line start tracking","lookup.hpp"),("separate start row","generator.hpp"),("making other rules match at line start","parser/parser.hpp")])
p("P07","A trailing $ restricts a rule to the end of a line",
"A rule ending in $ matches only where the token is directly followed by a carriage return, a newline or the end of the input, none of which it consumes, and it then beats an equally long match of a rule without $. Other rules, including those that go on to consume the line break, still match what they match without it.",
["programs","inputs"],"all rule sets mixing $ rules and others in which no rule matches a $ rule's text plus exactly its line break, all inputs with \\r and \\n, narrow and wide",
T+"no test exercises $ at run time.",
["lookup.hpp","generator.hpp"],
[("end of line transitions","lookup.hpp"),("line break clash repair","generator.hpp")])
p("P08","Non-greedy repeats stop at the earliest possible end",
"When a rule contains non-greedy repeats followed by a terminator, the token it yields is the shortest prefix the rule can match, irrespective of how the non-greedy repeat is written (*?, +?, ??, {n,m}?). Greedy rules in the same lexer state, and greedy alternatives of the same rule (ungrouped alternatives count as rules of their own), keep matching their longest text.",
["programs","inputs"],"all rules of the form prefix, non-greedy repeat, terminator over a small alphabet, alone and beside rules with a different first character, all inputs",
"18 fixed non-greedy cases are tested; shortest match is a claim about all inputs.",
["abstemious.hpp","generator.hpp","parser/parser.hpp","parser/tree/*.hpp","partition/equivset.hpp"],
[("pruning of trailing non-greedy operators","abstemious.hpp"),("pruning non-greedy transitions at accepting states","generator.hpp")])
p("P09","A macro reference means its parenthesised definition",
"Referring to a macro in a regex, in another macro or as an operand of {-}/{+} gives the same tokens as writing its definition (under the options in force when it was defined) in parentheses there, with ^ and $ of the definition anchoring only at the very start or end of the rule. Referring to an unknown macro, to the macro being defined or to one whose definition failed, and defining a macro twice, are rejected with the runtime error and change nothing.",
["programs","histories"],"all sequences of macro definitions and uses over small bodies, all inputs",
"Macro tests only check two error messages.",
["rules.hpp"],[("macro expansion","rules.hpp"),("macro table","rules.hpp")])
p("P10","Start states and the push/pop stack follow the declared transitions",
"Only the rules of the current lexer state apply, and each match switches to the state its rule names: stay, a named state, push (optionally remembering a different return state) or pop to the most recently remembered state. Rules given for a list of states or for all states apply in each of them, and popping with nothing remembered raises the runtime error instead of continuing.",
["programs","histories","inputs"],"all small pushdown rule sets (2-3 lexer states, every transition form), all inputs",
T+"states and the stack are never exercised at run time.",
["rules.hpp","lookup.hpp","generator.hpp"],
[("state and stack handling","lookup.hpp"),("exit state parsing","rules.hpp")],
state=[("current lexer state and return stack","where lexing resumes and returns to","match_results.hpp")])
p("P11","Tokens tile the input and lexing always terminates",
"Successive results cover the input in order without gap or overlap, apart from text consumed by skip rules; a rule without an id extends the current token by the next match instead of ending it (if no rule matches next, only the unmatched character is reported; if the input ends next, the end is reported with the text so far). Every call advances (unless a zero-length match was explicitly allowed), and once the input is used up every further call reports end of input at the end position, also for empty input.",
["programs","inputs"],"all rule sets with ordinary, skip and continue rules, all inputs",
T+"only token positions of a few inputs are looked at.",
["lookup.hpp","match_results.hpp"],[("token start/end bookkeeping, skip and continue","lookup.hpp")])
p("P12","Minimising a machine never changes what it matches",
"Minimising a built machine yields a machine with the same lexer states that gives identical results - token, id, user id, next state, push/pop and anchors - on every input, and never has more rows. Minimising twice changes nothing further.",
["programs","inputs"],"all built machines (including anchors, stacks and several lexer states), all inputs by product exploration",
"No test calls minimise.",
["state_machine.hpp","partition/charset.hpp"],[("row merging","state_machine.hpp")],obs=["char state machine tables, walked by an independent interpreter"])
p("P13","The character-level machine and the table machine are equivalent",
"The character-level state machine built directly from rules, and the one converted from a built table machine, both describe exactly the behaviour of lookup with the table machine: same transitions for each character, same anchors, ids, user ids, next states and push/pop. Conversion loses no lexer state and no character.",
["programs","inputs"],"all built 8-bit machines, all inputs by product exploration",
"No test builds a character-level machine or converts one.",
["sm_to_csm.hpp","state_machine.hpp","generator.hpp"],[("conversion","sm_to_csm.hpp"),("character-level append","state_machine.hpp")],obs=["char state machine tables against lookup"])
p("P14","A saved machine loads back identical, and foreign data is refused",
"Loading what was saved restores a machine that gives identical results on every input, for narrow and wide machines and every id width the formats support, and saving it again gives the same text. Data saved for a different character or id width is rejected with the runtime error rather than loaded.",
["programs","inputs","configurations"],"all built machines of the enumerated rule sets, all pairs of machine types",
"No test serialises anything.",
["serialise.hpp"],[("field by field text format","serialise.hpp")],obs=["save then load, then lookup"])
p("P15","Generated C++ code tokenises exactly like the runtime lookup",
"For every machine, the code emitted by the table-based C++ generator compiles and gives, call by call, the same token, id, user id, lexer state, stack and (if the machine uses ^) line-start flag as runtime lookup with that machine. This holds with plain and pointer tables, for one or many lexer states, for narrow and wide input and for every feature combination (^, $, skip, continue, states, stack).",
["programs","inputs","configurations"],"all rule sets of a feature-covering enumeration, both table modes, all inputs",
"No test generates code.",
["generate_cpp.hpp"],[("code templates per feature","generate_cpp.hpp")],obs=["generated lookup functions compiled and run beside lexertl::lookup"])
p("P16","Wide machines agree with narrow machines on shared characters",
"The same rules built for 16-bit or 32-bit characters and run on the widened text give the same tokens as the 8-bit machine on the original text. This includes anchors, states, skip, classes whose membership does not depend on the character type, and characters from 0x80 on written as they are (a narrow rule's character is the code point of the same value), and leaves out ties of a $ rule's text with a rule for that text and its line break.",
["programs","inputs","configurations"],"all rule sets of the enumeration, all inputs, 16- and 32-bit character types",
"Two UTF examples are tested; none compares widths.",
["parser/parser.hpp","lookup.hpp","generator.hpp"],[("slicing of wide characters into byte sequences","parser/parser.hpp"),("multi-byte step","lookup.hpp")])
p("P17","Wide character sets match exactly their code points",
"For 16- and 32-bit machines a set of ranges matches a code point if and only if the code point lies in one of the ranges, over the entire code space up to 0x10FFFF. Negation, difference and union of wide sets are exact as well, wherever the range ends fall relative to byte boundaries.",
["programs","inputs"],"all ranges with end points on and beside byte and plane boundaries, pairs of them, all code points",
"No test builds a wide range.",
["parser/parser.hpp","string_token.hpp","lookup.hpp"],[("splitting ranges by byte","parser/parser.hpp")])
p("P18","Unicode property classes and case folding match the Unicode data",
"In wide machines every \\p class name (category, script, block) matches exactly the code points that the Unicode data shipped with the project lists for it, and a general category group is the union of its members. Wide POSIX classes are the documented combination of those categories, and a case-insensitive character matches itself and its simple case mapping in that data and nothing else. 16-bit machines match the part of each class they can represent.",
["inputs"],"all supported class names, all code points",
"Only that the headers compile is tested.",
["parser/tokeniser/unicode.hpp","parser/tokeniser/blocks.hpp","parser/tokeniser/scripts.hpp","parser/tokeniser/table.inc","parser/tokeniser/fold2.inc","parser/tokeniser/fold4.inc"],
[("generated class tables","parser/tokeniser/unicode.hpp"),("fold tables","parser/tokeniser/fold2.inc")])
p("P19","UTF input and output iterators convert losslessly",
"Decoding UTF-8 or UTF-16 text through the input iterators yields exactly the encoded code points, with each iterator position denoting the first unit of its code point, and the output iterators write exactly the standard encoding of each code point. Two output positions are equal exactly when they are at the same unit. Text that breaks off inside a code point, or has a unit that cannot stand where it does, raises range_error, and nothing beyond the end is read. Lexing UTF-8 or UTF-16 text through the iterators gives the tokens of lexing the converted text.",
["inputs"],"all code points, all sequences of length-class representatives",
"Two fixed strings are decoded in tests.",
["utf_iterators.hpp"],[("decoders and encoders","utf_iterators.hpp")],obs=["iterator dereference, increment, comparison and lexing through them"])
p("P20","Lexing a stream equals lexing the same text in memory",
"Tokenising through the shared stream iterator gives the same tokens and token texts as tokenising the whole text from memory, whatever the (positive) initial buffer size and growth increment and the sizes in which the stream delivers data. An iterator made from a stream holds no text until it is first used, copied or assigned; it then stands at the oldest text another iterator holds, or at the beginning. Copies of an iterator stay valid and independent: copying, assigning, advancing and destroying one never changes the characters another one yields, and the buffer is released with the last of them.",
["inputs","fault_sequences","histories"],"all inputs, buffer sizes, increments and read-size patterns; all short histories of copy, assign, advance, compare, read and destroy",
"No test instantiates the stream iterator.",
["stream_shared_iterator.hpp"],[("shared buffer, lowest index and refill","stream_shared_iterator.hpp")],
state=[("clients and shared buffer","all live iterators and the window they need","stream_shared_iterator.hpp")],obs=["iterator operations and lookup through them"])
p("P21","Token iterators and ranges replay exactly the lookup sequence",
"Iterating with a token iterator or a range visits exactly the results that repeated lookup gives, up to and excluding the first one that starts at the end of the input, and then compares equal to the default iterator. Copies are independent, the postfix increment returns the previous result, and iterators compare equal exactly when they are at the same result of the same machine (or both at the end).",
["histories","inputs"],"all short histories of iterator operations on all small inputs, all results and character types",
"The tests iterate once forward over a few strings.",
["iterator.hpp","range.hpp","match_results.hpp"],[("iterator over lookup","iterator.hpp")],obs=["iterator and range operations"])
p("P22","Replace rewrites exactly the matched tokens",
"Every replace overload copies the input with each token replaced by the given text, or by what its id maps to, leaving tokens whose id is not mapped alone; skipped text and text at the end that only a rule without an id matched stay unchanged and in order. A character that no rule matches counts as a token with the no-match id. All overloads - iterators, strings, C strings, text, maps of texts, maps of callbacks - give the same output, and those with an output iterator return it past the last element written.",
["programs","inputs","configurations"],"all rule sets with id, skip and continue rules, all inputs, all overloads",
"No test calls replace.",
["replace.hpp"],[("copying between tokens","replace.hpp")],obs=["replace output"])
p("P23","Building accepts exactly the usable rule sets and is all-or-nothing",
"A build succeeds exactly if each lexer state has a rule, no rule can match the empty string (unless allowed), each rule wins on at least one input (unless allowed) and the id type can hold the machine; otherwise it throws the runtime error, naming an offending rule or state. A failed build leaves the target machine as it was, and building the same rules twice or over an old machine gives the same machine.",
["programs","histories"],"all rule sets of the enumeration under each option combination; histories of builds into one machine",
"Three fixed error cases are tested.",
["generator.hpp"],[("zero length and suppressed rule checks","generator.hpp"),("temporary machine swapped in","generator.hpp")],obs=["build outcome, lookup on the target before and after"])
p("P24","A rule set reflects exactly the accepted edits",
"After any sequence of adding states, macros and rules, clearing a state or everything, and changing flags, the rule set behaves as if only the calls that succeeded had been made, in order: a call that throws leaves no trace. State names map to stable distinct numbers, re-adding a name returns its number, and the reserved ids are refused.",
["histories"],"all short sequences of editing calls, including failing ones, followed by a build and lexing",
"Tests make one call on a fresh rule set each.",
["rules.hpp"],[("validation before mutation","rules.hpp")],
state=[("per-state rule lists, state map, macro table","the rule set","rules.hpp")],obs=["rules accessors, build and lookup"])
p("P25","Reversed rules match exactly the mirrored texts",
"Reversing a rule set makes each rule match exactly the mirror images of what it matched before, with ^ and $ exchanged, and reversing twice restores the original behaviour. Ids, states and rule priority are unchanged.",
["programs","inputs"],"all regexes of the operator enumeration, all inputs",
"No test reverses rules.",
["rules.hpp"],[("token list reversal","rules.hpp")])
p("P26","Debug dumps describe the machine faithfully",
"The textual dump of a machine lists every lexer state, row, end marker, id and transition of the machine, and reading the printed character classes back as regex classes gives exactly the characters of each transition. The graph dump has one node per row and one edge per transition with the same meaning, and the dump of rules lists every macro and rule so that reading them back gives the same machine.",
["programs"],"all machines of the enumeration, all character sets",
"Only that the headers compile is tested.",
["debug.hpp","dot.hpp"],[("class printing and escaping","debug.hpp"),("graph printing","dot.hpp")],obs=["dump text parsed back"])
p("P27","A memory-mapped file shows exactly the file and is released",
"Opening a file exposes exactly its bytes as characters, an unopenable or empty file exposes none, and closing, reopening or destroying the object releases mapping and descriptor whatever the order of calls. The size reported is the number of whole characters for each character width.",
["histories","fault_sequences","configurations"],"all short histories of open, close and destroy over files of several sizes (missing, empty, sub-page, page-sized, larger) and injected failures of the system calls, for each character width",
"No test opens a file through it.",
["memory_file.hpp"],[("open, map, unmap, close","memory_file.hpp")],
state=[("descriptor, mapping, size","what is held open","memory_file.hpp")],obs=["data, size; intercepted system calls"])
p("P28","Lexers sharing one machine do not interfere",
"Any number of lexers can use the same machine at once, from one or several threads, and each gives the tokens it would give alone; looking up never writes to the machine. Rule sets and machines that are distinct objects can be built concurrently.",
["schedules"],"every operation's memory accesses, for writes to shared memory; all interleavings of the lookup calls of 2-3 lexers on one machine; preemption-bounded interleavings of their memory accesses",
"Tests are single-threaded with one lexer at a time.",
["lookup.hpp","state_machine.hpp","rules.hpp","parser/tokeniser/re_token.hpp"],[("all mutable state is in the results object","lookup.hpp")],obs=["results of interleaved lookups"])
p("P29","The id type's width never changes the tokens, only what fits",
"Building with an 8-, 16-, 32- or 64-bit id type gives the same tokens whenever it succeeds, and when ids, rows, columns or character sets do not fit the type the build throws the runtime error instead of producing a wrong machine.",
["programs","configurations"],"rule sets of every size around the limits of the 8-bit type and the ordinary enumeration, all id widths",
"Tests use the default id type only.",
["generator.hpp","parser/parser.hpp","rules.hpp"],[("overflow checks","generator.hpp"),("character set numbering","parser/parser.hpp")])
p("P30","A result object alone determines how lexing continues",
"Copying a result object and continuing from the copy, at any point, gives the same further results as continuing with the original, as does resuming with a fresh object given the same position, line-start flag, lexer state and stack. Resetting or clearing an object makes it behave like a new one, and every feature set that covers the machine's features gives the same tokens. The text accessors of a result (str, substr, view, subview, length) give exactly the stated part of the token for every iterator type they accept.",
["histories","configurations"],"all points of all lexings of the enumeration; all feature sets",
"Tests never copy, reset or resume results.",
["match_results.hpp","lookup.hpp"],[("results hold the entire lexing state","match_results.hpp"),("compile-time feature selection","lookup.hpp")])
p("P31","Character set values obey set algebra",
"The public character-set type behaves as a mathematical set for insertion, removal, intersection, negation, emptiness, equality and ordering, in whatever order ranges are supplied and however they touch or overlap. Its stored ranges are always sorted, disjoint and non-adjacent, so that equal sets compare equal.",
["histories","inputs"],"all operation sequences over all subsets/ranges of a small universe including the extreme characters, for each character width",
"No test touches the set type directly.",
["string_token.hpp"],[("range list maintenance","string_token.hpp")],obs=["set operations"])
p("P32","Rule sets and machines are independent values",
"A copy of a rule set, a table machine or a character machine equals the original, and nothing done to either of them afterwards (adding rules, building, minimising, loading, swapping, clearing, destroying) changes the other. Assigning, moving, swapping and saving and loading transfer exactly the value whatever the target held before, assigning an object to itself changes nothing, and exactly the machines that hold nothing report that they are empty.",
["histories"],"all histories of copying, moving, swapping, editing, building, minimising, loading and clearing over a few objects",
"Tests build one machine and use it.",
["rules.hpp","state_machine.hpp","internals.hpp"],[("machine values","state_machine.hpp"),("tables and features","internals.hpp"),("rule-set values","rules.hpp")])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
