import os, sys, time, json
import runner
from runner import *

OPT = ["-O1", "-D_GLIBCXX_ASSERTIONS"]
ASAN = ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
COMMON = ["the reference model in harness/refre.hpp states the documented semantics",
          "behaviour outside the stated alphabets and bounds is not covered"]

CHECKS = {}
TECH = {}   # property -> technique, where it differs from the default
NOTE = {}


def check(prop, parts, rule, level="model_checking", assumptions=None):
    CHECKS[prop] = (parts, rule, level, assumptions or COMMON)


def part(name, flags=OPT, **kw):
    return (name, flags, kw)


check("P01", [part("p01")], "every ordered rule set of the enumeration x every input up to the length bound; each lookup call compared with the reference longest-match model; again for 16- and 32-bit characters on the shorter inputs")
check("P02", [part("p02")], "every regex up to the stated number of syntax nodes x every input up to the length bound; lookup compared with the set-of-ends semantics of the syntax tree; again for 16- and 32-bit characters on the shorter inputs")
check("P06", [part("anchors", OPT + ["-DPROP=6"])], "every rule set with at least one ^ rule in the enumeration x every input over a, b, newline up to the bound x both initial line-start settings")
check("P07", [part("anchors", OPT + ["-DPROP=7"])], "every rule set with at least one $ rule in the enumeration (those where another rule matches a $ rule's text plus exactly its line break left out) x every input over a, b, CR, LF up to the bound")

check("P12", [part("p12")], "every rule set of the catalogue: all reachable pairs of rows of the built and the minimised machine compared over every character (product exploration, so inputs of any length), in table and character form; plus lookup runs of the minimised machine against the reference model")

check("P13", [part("p13")], "every rule set of the catalogue and every pair of wide ranges: all reachable pairs of rows of the table machine, the character machine built from the rules and the converted one compared over every character; plus lookup runs beside an interpreter of the character machines")

check("P14", [part("p14")], "every rule set of the catalogue for each character and id width saved, loaded, compared field by field and by product exploration, saved again and run beside the reference model; every ordered pair of widths for refusal; every line position for every digit count")


def check_p15(prop, tier, seed, case, t0):
    import shutil, subprocess
    exe = runner.build_harness("p15", OPT + ["-ldl"])
    chunks = 32 if tier == "quick" else 256
    d = os.path.join(runner.BUILD, "p15-gen-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rule = ("every machine of the enumeration (feature combinations, anchors, actions, number of lexer states, character and id widths) x plain and "
            "pointer tables: generated code is compiled, loaded and stepped beside lookup on every input up to the bound, from every start state")
    try:
        p = subprocess.run([exe, "--gen", d, str(chunks), tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            raise CheckError("p15 --gen failed with %d: %s" % (p.returncode, p.stdout[-2000:]))
        v = None
        flags = ["-O0", "-fPIC", "-shared"]
        probe = os.path.join(d, "probe.cpp")
        with open(probe, "w") as f:
            f.write("#include <lexertl/match_results.hpp>\n#include <cstddef>\n")
        runner.compile_many([(probe, os.path.join(d, "probe.so"), flags)])
        try:
            runner.compile_many([(os.path.join(d, "chunk%d.cpp" % i), os.path.join(d, "chunk%d.so" % i), flags) for i in range(chunks)])
        except CheckError as e:
            v = p15_uncompilable(str(e), d)
            if not v:
                raise
        if v:
            tot = {"cases": 1, "states": 1, "transitions": 0, "traces": 0, "outcomes": set(), "samples": [v["desc"]], "extra": {}, "known": {}, "total": 1, "known_text": {}}
        else:
            env = {"P15_DIR": d, "P15_CHUNKS": str(chunks)}
            if case is not None:
                return subprocess.run([exe, "--tier", tier, "--case", case], env=dict(runner.ENV, **env)).returncode
            tot, v = runner.explore(prop, exe, tier, seed, mem=3 << 30, extra_env=env)
        return runner.finish(prop, tier, seed, "model_checking", tot, v, t0, rule, COMMON, name="p15")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def p15_uncompilable(log, d):
    """The generated code does not compile: name the machine it was generated for."""
    import re
    for m in re.finditer(r"(chunk\d+\.cpp):(\d+):\d+: (?:fatal )?error: (.*)", log):
        lines = open(os.path.join(d, m.group(1)), errors="replace").read().split("\n")
        for i in range(min(int(m.group(2)), len(lines)) - 1, -1, -1):
            if lines[i].startswith("// job "):
                no, _, desc = lines[i][7:].partition(": ")
                return {"case": int(no), "key": "compile", "desc": desc, "text": "the generated code does not compile: " + m.group(3)}
    return None


check("P15", check_p15, "")


check("P31", [part("p31", ASAN)], "every value over universes cut into 8 cells (top, bottom, middle and byte boundaries of four character types) x every operation x every operand, so that by induction any sequence of operations over those universes is covered; every sequence of range insertions up to the bound",
      assumptions=["the operations treat characters inside one cell alike; a set passed to its own remove or intersect is left out"])

check("P03", [part("chars", OPT + ["-DPROP=3"])], "every spelling of a single-character regex of the catalogue (all characters raw, quoted, escaped; all octal, hex, control and named escapes; all ranges; POSIX and shortcut classes; lists of up to three items; {-}/{+} chains; dot under each option), each checked on all 256 characters alone and followed by another one; the whole catalogue again under rules imbued with an ISO 8859-1 and an ISO 8859-9 character type facet")
check("P04", [part("chars", OPT + ["-DPROP=4"])], "the catalogue of P03 with the case-insensitive flag on all 256 characters, in the C locale and under the two facets; every arrangement of two option groups around three leaves x every input over a, A, b, B up to the bound; every range of Latin-1 in wide machines")

check("P05", [part("p05", ASAN)], "every sequence up to the bound over nine alphabets of regex fragments (structure, anchors, brackets, counts, strings and comments, option groups, white space mode, all token kinds), every prefix and one-character change of the POSIX names, every cut, extension and change of a property name, every backslash followed by any two bytes, under address and undefined-behaviour checking; acceptance, and for accepted texts every input up to the bound, against an independent recursive-descent grammar",
      assumptions=["harness/regexref.hpp states the documented grammar", "the meaning of repeated anchors, of ^ rules that can match the empty text and of trailing non-greedy repeats is left open; acceptance of wide rules is not compared, only robustness"])

check("P08", [part("p08")], "every regex of non-greedy repeats up to the stated number of syntax nodes, every prefix / repeat (17 spellings) / terminator combination, beside every greedy rule of the pool in both orders and between two of them, as alternatives of one rule, and in pairs, x every input up to the bound, again for 16- and 32-bit characters on the shorter inputs, against the shortest-match model",
      assumptions=["greedy repeats inside a non-greedy rule only where their characters cannot follow the end of the match; at most one non-greedy rule per lexer state; harness/refre.hpp states the documented semantics"])

check("P09", [part("p09")], "every definition of the catalogue x every context (one reference, two references, macros of macros), with and without anchors: the machine with macros compared with the machine written out by exploring all reachable pairs of rows, so for inputs of any length; every sequence of macro definitions and rules over 25 operations up to the bound against a model of which succeed",
      assumptions=["references with a repeat after a definition anchored at that end, and empty texts between the reference and the end of the rule, are left open", "the parenthesised spelling itself is checked by P02 and P05"])

check("P10", [part("p10")], "every assignment of the effects stay, go, push, push remembering another state, pop to the rules of two states of two rules, one state of three, three states of one or two, with ids, skip and continue and with anchors, x every input up to the bound x every start state; every ordered selection of states in a state list x every exit state form x every push overload",
      assumptions=["harness/refre.hpp states the documented semantics"])

check("P11", [part("p11")], "every rule of the pool and every pair and triple of rules as ordinary, skip or continue rule, also across two lexer states and a stack, x every input up to the bound, each cut out of a longer text, x result types (pointer, string, deque iterators, with and without stack, 8- and 16-bit characters, 16- and 32-bit ids); each call checked for progress, order, gaps and the end, against the reference model, and three calls beyond the end",
      assumptions=["harness/refre.hpp states the documented semantics"])

check("P16", [part("p16")], "every rule set of the catalogue, every spelling of a single-character regex (also with case folding, repeated and in brackets), pairs of class items with negation, {-} and {+}, ranges of Latin-1, newline and white space options, and non-greedy, anchored rules: the 8-bit machine and the 16-, 32-bit and wchar_t machines (from narrow and wide rules) compared by exploring all reachable pairs of rows over the shared characters, so for inputs of any length; lookup of the wide machines beside the reference model on every input up to the bound",
      assumptions=["shared characters: ASCII where the meaning beyond it depends on the character type, else Latin-1", "ties of a $ rule's text plus exactly its line break are left out"])

check("P17", [part("p17")], "16-, 32-bit and wchar_t machines: every range between the points of a fine grid on and beside byte, plane and surrogate borders (alone, negated, repeated), every pair of ranges of the coarse grid (union, negation, {-}, {+}, alternation, two rules with priority), every triple of a small catalogue in sequence: the accepted set computed from the machine exactly, over every code point and every byte sequence beyond, against interval arithmetic; lookup on every border",
      assumptions=["interval arithmetic in harness/wide.hpp"])

check("P18", [part("p18")], "every property class of the data (alone, in brackets, negated, case-insensitive, combined), pairs of categories, POSIX and shortcut classes, folding of every mapped character, its neighbours and a grid, ranges between fold-run borders, for 16- and 32-bit characters: the accepted set computed from the machine exactly, over the whole code space, against the Unicode data files of the repository",
      assumptions=["the Unicode data files in gen_unicode_hpp are the reference; folding is the simple mapping of lower-case to upper-case letters and back"])

check("P19", [part("p19"), part("p19", ASAN + ["-DPART_ASAN"])], "every code point alone and between others, and every sequence of 15 representatives up to the bound, decoded and encoded by every iterator type, with every move between any two positions, both increments and every comparison; every sequence of 19 bytes and of 9 UTF-16 units up to the bound for errors and reads beyond the end; every 16-bit value byte-swapped; lexing through the iterators beside lexing the decoded text for 18 rule sets x every sequence",
      assumptions=["encoders and decoders in harness/p19.cpp; overlong UTF-8 and encoded surrogates are accepted by the library and not judged"])

check("P20", [part("p20"), part("p20", ASAN + ["-DSHALLOWER=1"])], "every text up to the bound over a, b, newline x 10 rule sets x every buffer size, increment and delivery size of the bound, for three character types: tokens by lookup and by token iterator beside the text in memory; every history up to the bound of making, copying, assigning, advancing, reading and destroying over three variables and two streams for six texts and buffer sizes, against a model of positions, with counted memory and address checking",
      assumptions=["positive buffer sizes and increments; an unused iterator made from a stream is only judged while its position is defined (nothing taken yet, or another iterator holds text)"])

check("P21", [part("p21")], "every text up to the bound over a, b, newline x every start offset, line-start flag and lexer state x six rule sets x the twelve iterator types: iteration by both increments, by range and by copying, beside repeated lookup; every history up to the bound of making, copying, assigning, incrementing and destroying over three iterators of two machines, with dereference and all comparisons checked after it")

check("P22", [part("p22")], "every rule set of the catalogue (ordinary, skip and continue rules, anchors, two lexer states) x every input up to the bound x every overload of replace (texts, maps of texts and callbacks of both kinds; string, pointer, list and deque iterators into lists, arrays and back inserters) for 8- and 16-bit characters, against the tokens of the reference model",
      assumptions=["harness/refre.hpp states the documented semantics; rules that match the empty text are left out"])

check("P23", [part("p23")], "every rule set of one, two and three rules of the catalogue, with and without anchors, and of any number of rules in each of up to three lexer states, under each combination of the two permissive flags, for table and character machines of three character types, into a machine that holds another: accepted or refused, the error text and the target compared with the model (which rule wins is decided by the reference model on every text up to the bound); every history up to the bound of builds (good and refused), minimise and clear on one machine, for 8- and 16-bit ids",
      assumptions=["a rule of the catalogue that can win does so on a text within the bound", "^ rules that can match the empty text and ties of a $ rule's text plus exactly its line break are left open"])

check("P24", [part("p24")], "every sequence up to the bound over 41 calls (adding states, macros and rules in every overload, good and malformed, in one, several and all states, with pushes and pops; clearing; flags) on a rule set, depth first with copies of it: acceptance, every accessor and the machine built compared with a model and with a replay of the successful calls alone, after each call; 255 lexer states under 8-bit ids and calls refused beyond",
      assumptions=["memory exhaustion inside a call is not modelled"])

check("P25", [part("p25")], "every regex up to the stated number of syntax nodes alone and with anchors beside other rules, every combination of three parts with repeats inside repeats, the shared catalogue of rule sets (anchors, several rules, lexer states, stacks) and a catalogue of spellings also through macros used before and after: the reversed rules compared with the mirrored ones written out, and the rules reversed twice with the originals, by exploring all reachable pairs of rows, so for inputs of any length; lookup beside the reference model of the mirrored rules",
      assumptions=["of non-greedy rules only reversing twice is checked"])

check("P26", [part("p26")], "every rule set of the catalogue for 8-, 16- and 32-bit ids and narrow, wide and 32-bit characters, every combination of three parts (repeats, groups, strings, escapes) with and without anchors, and macros in every context: textual dump parsed back and compared row by row with the character machine and, by exploring all reachable pairs of rows, with the table machine; graph dump parsed back; dump of the rules read into new rules whose machine is compared likewise; every set of up to three ranges over special characters and its complement, printed and read back by an independent reader, from the graph label and by the library",
      assumptions=["the graph shows rows, ids, transitions and lexer state changes only; the dump of rules is read as regexes of this library, not of flex"])

check("P27", [part("p27")], "every history up to the bound of opening (11 kinds of file from missing to several pages; open, fstat or mmap made to fail), closing, destroying and constructing with one and two objects, for four character types, with descriptor 0 free and among descriptors and mappings of others: contents and size, and the mappings and descriptors the kernel shows for the process, after each step",
      assumptions=["the POSIX branch; the kernel's /proc/self lists"])

check("P28", [part("p28", OPT + ["-fsanitize=thread", "-nodefaultlibs", "-lstdc++", "-lm", "-lgcc_s", "-lgcc", "-lc"])], "every operation as a logical thread under hooks on each memory access: lexing every input up to the bound with every rule set of the catalogue (stacks too, 8- and 16-bit characters), building, minimising, reversing, saving, loading, dumping, generating, iterating and replacing with a catalogue of regexes: none may write, unsynchronised, to memory but its own, so no two conflict; besides, two and three lexers on one machine really interleaved: every order of their lookup calls, and for a part of the rule sets every schedule of their accesses to shared memory up to the preemption bound, beside each lexer alone",
      assumptions=["accesses as instrumented by the compiler; memory is sequentially consistent in the explored schedules, which without conflicting accesses is the same", "first-use initialisation of function-local statics is the compiler's"])

check("P29", [part("p29", ["-O2", "-D_GLIBCXX_ASSERTIONS"])], "the catalogue of rule sets (strict and permissive), and families of rules of every size around the limits of 8 bits: rows (repeats, anchors, line ends that need rows of their own), columns, character sets (in one and two lexer states), numbers of rules over several lexer states with one suppressed or empty rule at each place, distant non-greedy rules, ids and user ids, chains of lexer states; rows around 65536 for 16 bits: table machines with 8-, 16- and 64-bit ids, minimised ones and character machines beside those with 32-bit ids by exploring all reachable pairs of rows, narrow and wide; lookup of every input up to the bound beside the reference model; what clearly fits must be built, with the same errors",
      assumptions=["what 32-bit ids give is judged by the other checks"])

check("P30", [part("p30")], "every rule set of the catalogue (two lexer states and stacks too) x every input up to the bound x every initial lexer state and line-start flag: at every point a copy, an assigned and a moved object and a new one at the same place go on like the original and leave it unchanged; equality of all fields; reset and clear at every point beside new objects (string, deque and pointer iterators, 8- and 16-bit characters, 16- and 32-bit ids); all feature sets that cover the machine's (of 96) beside the full one; the text of every part of every token in each of its forms for twelve result types",
      assumptions=["without the advance feature the caller steps over a character that does not match"])

check("P32", [part("p32")], "every history up to the bound, from three starting points, over 71 operations on two rule sets and three machines (editing, clearing, building, minimising, saving and loading, copying, moving and assigning in both forms, swapping, assigning to itself), for table and character machines of two character types; afterwards every object compared field by field with one made afresh from the operations it stands for, and the exchange of lexer states and comparison of rows of character machines",
      assumptions=["a moved-from object is only assigned to, cleared or destroyed"])


def run(prop, tier, seed, case):
    t0 = time.time()
    if prop not in CHECKS:
        raise CheckError("no such check: " + prop)
    parts, rule, level, assumptions = CHECKS[prop]
    if callable(parts):
        return parts(prop, tier, seed, case, t0)
    jobs = list(zip(parts, runner.build_harnesses([(p[0], p[1]) for p in parts])))
    tot = v = None
    name = ""
    for (n, flags, kw), exe in jobs:
        name = n
        mem = None if any("sanitize" in f for f in flags) else 3 << 30
        if case is not None:
            os.execv(exe, [exe, "--tier", tier, "--case", case])
        t, v = runner.explore(prop, exe, tier, seed, mem=mem, **kw)
        tot = runner.merge(tot, t)
        if v:
            break
    return runner.finish(prop, tier, seed, level, tot, v, t0, rule, assumptions, name=name)
