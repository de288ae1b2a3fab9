import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files))])))

p("C01","jbofihe accepts exactly the texts the Lojban grammar derives",
"For every text made of valid Lojban words, jbofihe exits 0 and prints its analysis exactly when the token sequence is a sentence of the baselined Lojban machine grammar (terminators elided as the grammar allows), and otherwise exits with a syntax error status and prints no analysis. With -re it accepts exactly the texts in which every elidable terminator is written out. Neither verdict depends on the output format requested.",
["inputs","configurations"],"All word sequences over all cmavo classes, brivla, cmene; normal and -re grammars; all output modes.",
"The 231 stored cases are a few hundred fixed sentences with stored output; acceptance is a language-equality question over an infinite language with ~120 token classes, compound-token marking by lookahead, and LALR conflict resolution.",
["rpc2x.y","action.perl","terminator.pl","categ.c","stag_nfa.in","lex2.c","cmavotab.c","functions.c","main.c"],
"Pre-parser compound marking (tenses, connectives, I-BO, KE/BO lookahead, MAI/ROI/MOI) plus two bison grammars generated from rpc2x.y")
p("C02","The printed parse tree is the grammar's derivation and covers every word once",
"For every accepted text the full parse tree (-tf) is the derivation the Lojban grammar assigns, with the text's words as its leaves, each exactly once and in order, carrying the right class (cmavo class, brivla, cmene, quotation, bu-word, zei-compound) and any attached indicators. The condensed tree (-t) is the full tree with unary nonterminal chains collapsed, and the default bracketed output groups the same words the same way as the tree.",
["inputs","configurations"],"All accepted texts; -t, -tf and bracketed output.",
"Stored outputs pin only the shapes of the sampled sentences; grouping errors (attachment, associativity, wrong rule chosen in a conflict) need particular construct combinations.",
["rpc2x.y","action.perl","functions.c","tree.c","categ.c","lex2.c"],
"Node construction in grammar actions, tree printers")
p("C03","Word segmentation is independent of layout, comments, pauses and digits",
"The analysis of a text depends only on its sequence of words: replacing any word separator by any mixture of blanks, tabs, newlines, full stops and (nested) bracketed comments, writing a number or pi'e as digits or ':', inserting commas as syllable breaks inside brivla and names (whose spelling alone then differs), running cmavo together where pauses are not required or separating them, never changes the words found or their parse. Characters inside comments never contribute words, and every word outside comments contributes exactly once.",
["inputs"],"All texts and all layout-equivalent rewritings of each.",
"Tests use one layout per sentence; the equivalence quantifies over pairs of texts and every combination of separators around every kind of word.",
["lex1.c","morf.c","cmavotab.c"],
"Character scanner state (comment depth, token buffer), digit substitution, compound cmavo splitting")
p("C04","si, sa and su erase exactly the words the language rules say",
"For every history of words interleaved with erasure words, the parse equals the parse of the text with the erased words removed: si removes the previous word (for a quotation, its pieces one at a time), sa removes back to and including the latest preceding word of the same kind as the word following sa (or to the start of the text), and su removes back to and including the nearest preceding NIhO, LU, TUhE or TO (or the start). Words quoted by zo, zoi or lo'u never act as erasers.",
["histories","inputs"],"All sequences of words, quotations and erasers of any length.",
"Erasure is a stateful editing history; the tests sample a handful of si chains and few sa/su uses, never random interleavings with quotations.",
["erasure.c","lex2.c"],
"Token list editing before parsing, lo'u and zo captured first")
p("C05","Quotations, zei, bu, ba'e and indicators attach as the language rules say",
"zo quotes exactly the next word, lo'u...le'u the words between, zoi and la'o the raw text between equal delimiter words, zei glues its two neighbours into one brivla-like word (chaining left), bu turns the preceding word into a letteral, ba'e marks the following word, and free attitudinal words (UI, CAI, Y, DAhO, FUhE, FUhO with their NAI/CAI suffixes) attach to the preceding word without affecting the grammar. The word list printed by -k and the words of the parse show each such unit once, with exactly the text written by the user.",
["inputs","histories"],"All texts mixing these constructs in any nesting or adjacency.",
"The constructs interact by processing order (zo before zei before bu before indicators); tests cover single uses, not combinations.",
["lex1.c","lex2.c","tree.c"],
"Ordered token-list rewriting passes in lex2.c; zoi capture in lex1.c")
p("C06","Elided terminators are reported truly, restorable, and suggestions are sound",
"For every accepted text (without erasures), writing in, at the places -ie shows, the terminators that -ie reports as elided gives a text that parses to the same structure, that -re accepts, and in which -ie reports nothing elided any more; -re refuses the text as it was unless nothing was elided. Every omission that -se suggests (one word, several words, or a reduction to a pattern) can indeed be made: carrying it out at the reported positions yields an accepted text with the same structure; and apart from ke'e, me'u and terminators that a free modifier or indicator follows, every single terminator that could be omitted is suggested. -sev makes the same suggestions.",
["inputs","configurations"],"All accepted texts, every elided terminator and every suggestion.",
"It relates runs on different texts; tests compare each text to a stored output only.",
["elide.c","output2elide.pl","functions.c","tree.c","rpc2x.y","terminator.pl"],
"Elidable nodes created in grammar actions; elide.c simulates the LALR automaton without the terminator")
p("C07","Every word form is classified and split as the Lojban morphology prescribes",
"For every string of letters, apostrophes, commas and stress capitals, vlatai reports the word type (cmavo(s), gismu, lujvo, fu'ivla by stage, cmene, or unmatched/bad) that the baselined morphology rules assign, and splits off exactly the right leading cmavo, with the pieces concatenating to the input. Classification does not depend on inserted commas, on whether the word is given as argument or on standard input, or on which words precede it there.",
["inputs"],"All letter strings, including those with y-hyphens, r/n hyphens, buffer consonant clusters, slinku'i forms, stress marks.",
"The morphology is a large finite automaton over an infinite language; tests classify a few dozen words.",
["morf.c","morf_nfa.in","mk_fetab.pl","mk_vfetab.pl","mk_enctab.pl","dfasyn/n2d.c","dfasyn/compdfa.c","bccheck.c","bctables.in"],
"Table driven scanner generated by dfasyn and perl scripts; word start tracking for cmavo prefixes")
p("C08","The parser uses the same words as the morphology and rejects bad words",
"In any text, jbofihe breaks each whitespace-delimited chunk into the same leading cmavo and final word, with the same type, as vlatai reports for that chunk, and splits names at an embedded la, lai, la'i or doi as described. A text containing an unrecognizable word, a cmavo that does not exist, a misplaced capital letter, or an unterminated quotation is never given a parse: jbofihe names the offending word and exits with status 3 (or 1 for an unterminated lo'u).",
["inputs"],"All chunks of letters alone and in any context.",
"Two programs share the scanner through different code paths; tests run them on different words.",
["lex1.c","morf.c","bccheck.c","cmavotab.c","main.c"],
"process_word dispatch on morphology result; cmavo lookup")
p("C09","Error reports point at the right word, line and column",
"For every text with a bad word, the report gives the line and column at which that word starts in the input. For every text with a syntax error, the word reported as misparsed is the first word at which no continuation of the preceding words is grammatical under the parser's grammar (or end of text), with its own line and column, and the words listed before it are the ones immediately preceding it in the text.",
["inputs"],"All rejected texts under all layouts.",
"Positions depend on the whole preceding layout (tabs, comments, digits, compound cmavo, erasures); tests have a few one-line errors.",
["lex1.c","lex2.c","functions.c","categ.c"],
"start_line/start_column bookkeeping per token; viable-prefix property of the LALR automaton")
p("C10","jvocuhadju outputs valid lujvo, correctly scored, the best first",
"For every list of gismu and rafsi-bearing cmavo, each form jvocuhadju prints is a well-formed lujvo whose rafsi stand for exactly the given components in order, printed with the score the official lujvo-scoring formula gives it. The list is the lowest-scoring forms in nondecreasing order, complete with -a, and under each option (-l long rafsi, -b brod, -a all, and the display options) contains exactly the forms that option allows; components that do not exist or have no usable rafsi are refused by name.",
["inputs","configurations"],"All component lists up to the supported length and all options.",
"The number of component lists is astronomical, and hyphen rules (y, r, n, tosmabru) depend on neighbour combinations; there is essentially one example in the docs.",
["jvocuhadju.c","lujvofns.c","reduced_gismu","reduced_cmavo"],
"Enumeration of rafsi choices with hyphen insertion and scoring")
p("C11","Lujvo decompose into the right components and round-trip",
"For every valid lujvo, vlatai -el reports exactly the sequence of source words of its rafsi, independent of the spelling chosen (long or short rafsi, hyphens), so all alternative forms of one compound report the same decomposition, and every form jvocuhadju builds from a word list decomposes back into that list. An entry stored for a place of a lujvo is also found by jbofihe for the same compound written with zei, and, whatever its spelling, inside a longer lujvo covered by a pattern entry.",
["inputs"],"All lujvo over the whole rafsi table, all alternative spellings.",
"Tests decompose a handful of lujvo; the rafsi table has over a thousand entries and spelling variants multiply.",
["canonluj.c","canonluj.pl","reduced_gismu","morf.c","translate.c","jvocuhadju.c","smujajgau.c"],
"Rafsi segmentation and lookup tables shared between programs")
p("C12","The dictionary behaves as a persistent map over any build history",
"After any sequence of smujajgau runs over any text files, looking up a key gives the value of the last entry for it in build order, and every key never entered is absent; entries survive updates of other keys, comment lines are ignored, place-structure entries replace stale per-context variants, and lujvo entries are also found under the compound's canonical decomposition. The result does not depend on how the entries were divided among files and runs, and lookup finds every stored key whatever the number and order of entries.",
["histories","inputs"],"All sequences of dictionary updates and lookups.",
"It is a property of update histories and of binary search over any key set; tests use one fixed dictionary.",
["smujajgau.c","dictaccs.c","canonluj.c","translate.c"],
"Sorted on-disk table rewritten by merge; bisection on mmapped file")
p("C13","Every word is glossed from its dictionary entry for the context it stands in",
"In glossed output each Lojban word is shown with the English the dictionary gives for it in its grammatical role: a brivla, abstractor or zei compound is shown in its verb form as the head of a main selbri, its noun form in a sumti, its qualifier form when it modifies another word of a tanru and its tag form in place tags, for the place which the conversions (se, te, ve, xe, jai with a tag) make its first; the form is the explicit entry when there is one, else the place entry inflected by its class, else (following redirections) a pattern entry for the lujvo, else a gloss from its components. Connectives are shown by the truth function they express (with na, se, nai taken into account), tenses and modals by the form for their context, number and tense clusters by the entry for the cluster, indicators with their nai and degree; words without any entry are shown without an invented gloss, and no word, gloss or connective remark is missing or repeated.",
["inputs","configurations"],"All words, all dictionary contents, all contexts (main selbri, tanru modifier, sumti, place tag) and conversions.",
"Tests pin output for one dictionary and a few words per context; the property quantifies over dictionaries and the product of context x conversion x entry shape.",
["translate.c","output.c","dictaccs.c","canonluj.c","places.dat","patterns","extradict"],
"adv_translate lookups with suffix n/v/q/t and fallback rules")
p("C14","Every sumti is tagged with the place of the right selbri it fills",
"For every bridi, each sumti is labelled with the selbri word and place number it fills under the language's rules: position before and after the selbri, FA tags, SE/TE/VE/XE conversion (also stacked, inside tanru, be/bei links, co inversion, connected selbri and bridi-tails with shared terms), and jai/fai. Each sumti with a place is labelled with exactly those places, and sumti introduced by tense or modal words are not counted as positional places. (The program announces that it does not tag termsets, selbri with cei and connected abstractors; those are outside the property.)",
["inputs"],"All bridi structures: conversions stacked on any selbri, FA in any order, links, connectives, co, nesting in descriptions, relative clauses and abstractions.",
"Tests sample few dozen bridi; place assignment composes over arbitrary nestings and permutations.",
["terms.c","conversion.c","output.c","connect.c","relative.c"],
"Term vectors, link/conversion processing over selbri structure")
p("C15","All output formats present the same words, glosses, tags and brackets",
"For every accepted text, the plain, block, HTML, LaTeX and LaTeX-block renderings present the same words in the same order with the same glosses, place tags and numbered brackets, each in well-formed syntax (brackets balanced and properly nested, HTML tags closed and special characters escaped, LaTeX groups balanced and special characters escaped); the bare bracketed form shows the same words, and each group bracketed in the glossed forms is a group of it. In block output no line exceeds the width chosen with -w except for a single item wider than it, the rows of a line are aligned, and changing the width changes only line breaks.",
["inputs","configurations"],"All accepted texts, all output options, all widths.",
"It is a relation among many runs; tests store few outputs, mostly in one format.",
["output.c","textout.c","textblk.c","htmlout.c","latex.c","latexblk.c","tree.c"],
"One traversal driving format drivers through a function table")
p("C16","cmafihe glosses every input word once, in order, with its class",
"For every input text cmafihe writes each Lojban word of the input exactly once and in order, with its selma'o (cmavo and cmavo compounds), BRIVLA or CMENE, and the dictionary gloss for it (for compounds and unknown lujvo, the glosses of their parts in order); text in parentheses or brackets is passed through, blank lines are kept as line breaks, and anything else is reported on standard error. In block mode the three rows stay aligned and no line exceeds the requested width unless a single item is wider, and all modes agree on words, classes and glosses.",
["inputs","configurations"],"All texts, dictionaries, widths and output modes.",
"No existing test drives cmafihe at all.",
["cm_scan.l","cm_gather.c","cm_translate.c","cm_output.c","cm_main.c","dictaccs.c"],
"Own flex scanner, greedy splitting of cmavo compounds, own lujvo splitting, block layout")
p("C17","dfasyn's generated tables recognise exactly what the automaton source describes",
"For every automaton description dfasyn accepts, the generated deterministic table classifies every symbol sequence with the same result as simulating the description directly (block instances, multi-level names, result expressions with their priorities, attributes, defaults, early exits), and unmatched sequences are reported as such. Table compression, state minimisation and the verbose report never change the classification, and malformed or ambiguous descriptions are refused with an error status rather than compiled.",
["programs","inputs","configurations"],"All automaton source files and all symbol sequences.",
"Tests only exercise dfasyn through the three automata in the tree, and only on the words the tests contain.",
["dfasyn/n2d.c","dfasyn/compdfa.c","dfasyn/tabcompr.c","dfasyn/expr.c","dfasyn/parse.y","dfasyn/scan.l"],
"Subset construction, partition refinement, table compression, result expression evaluation")
p("C18","No input makes any program crash, hang or touch memory it should not",
"Whatever bytes are given as text, words, dictionary sources or options, each program ends by itself with a documented exit status, without crashing, reading or writing outside its buffers, using uninitialised or freed memory, aborting on an internal assertion, or reporting an unexpected internal error.",
["inputs","configurations"],"All byte strings as input and all option combinations.",
"Tests feed only well-formed short sentences and are not run under a sanitizer.",
["lex1.c","lex2.c","erasure.c","categ.c","terms.c","morf.c","bccheck.c","htmlout.c","textblk.c","smujajgau.c","cm_translate.c","cm_output.c","jvocuhadju.c","main.c"],
"Fixed-size buffers, token-list surgery, signal handler that hides crashes")
p("C19","Results are a function of the text and the options only",
"Running any program twice on the same input gives byte-identical output and status; reading from a named file or from standard input, adding purely diagnostic options (-k), the way options are ordered, the location of the dictionary, and other environment settings do not change the analysis printed for the same text. A text's independent paragraphs and words are analysed the same however much text precedes them.",
["configurations","inputs","histories"],"All texts, option orders, input routes and environments.",
"A relation between runs; each test runs a text once with one option order.",
["main.c","morf.c","lex1.c","memory.c","dictaccs.c"],
"Global state, uninitialised memory, option parsing")
p("C20","The explanatory diagnostics of a syntax error are true",
"For a text outside the grammar, the first diagnostic names the word at which the text stops being the beginning of any accepted text, with its place, and the (up to eight) words before it; where it says that a selbri is missing before gi'a, gi'e etc., it gives the place of that conjunction. With -bt the rules listed as completed since, the state it got stuck in and the constructs listed as pending are those of the grammar after those words, and the word classes listed as possible next are, apart from the classes that need an internal marker, exactly the ones that the grammar admits at that point: a word of such a class instead of the wrong one does not produce an error at that word. With -re the same holds for the grammar in which no terminators may be left out.; a text that is accepted gives no such diagnostics.",
["inputs"],"All rejected texts.",
"Tests show few error messages; the statement concerns every automaton state.",
["tracebk.c","output2table.pl","add_trace_to_tabc.pl","errorscan.c"],
"Tables generated from bison's .output file; stack walk at the error")
p("C21","Numbers that refer to constructs name the right bracket",
"Where glossed output refers to a construct by number, the bracket of that number encloses exactly the words of that construct: for ke'a the sumti its relative clause is attached to (the innermost relative clause around it, wherever the clause is attached: a description, name, vocative, la'e or na'e bo sumti, a possessor, vu'o; nothing outside relative clauses or across quotations and parentheses), for place tags of me the sumti, of number + moi the number, of nu'a the operator, of a zei compound the compound, of jai with a tag the unit after the tag.",
["inputs"],"All accepted texts with relative clauses, ke'a and place tags that use numbers.",
"The numbering depends on everything before the construct and on which brackets are printed at all; stored outputs hold a few simple cases.",
["relative.c","output.c","terms.c","properties.c"],
"prop_antecedent / prop_require_brac marks and the numbering pass of output.c")
p("C22","Damaged dictionaries and failing files are reported, never misread",
"When a file fails, the program says so and does not pretend otherwise: a compiled dictionary that has been cut short, or whose count of entries is greater than what it holds, is refused with a message and status 1 by jbofihe, cmafihe and smujajgau (which then leaves it untouched); no dictionary file, whatever its bytes, makes a program crash, hang or touch memory it should not, and bytes after the end change nothing. Whatever a program writes (the dictionary of smujajgau, the output of the others, dfasyn's tables and report), it exits 0 only if it has been written completely, at whatever byte writing fails; every source file or text file that cannot be opened or read is named on standard error, and the sources that can be read are compiled as if they alone had been given. Without a dictionary the glossers work as with an empty one.",
["inputs","crash_points","fault_sequences"],"All damaged dictionary files, all points at which writing fails, all combinations of missing files.",
"Tests use one intact dictionary and never make a read or a write fail.",
["dictaccs.c","smujajgau.c","main.c","cm_main.c"],
"Binary file format with a count, length bytes and strings, mapped into memory; stdio errors")
p("C23","Results do not depend on how the programs were configured or compiled",
"The same sources built with another compiler or optimisation, with the dictionary read instead of mapped (--nommap), or with the shipped dictionary built into the programs (--embed) give the same output, messages, status and files for the same input. In particular the built-in dictionary glosses every word in every role as the dictionary file compiled from the same shipped sources does.",
["inputs","configurations"],"All inputs of all programs in each build configuration.",
"Tests run one build; undefined behaviour and differences between the two dictionary compilers show only when builds are compared.",
["config.pl","Makefile.in","dict2inc.pl","dictaccs.c","smujajgau.c"],
"Preprocessor switches HAVE_MMAP and EMBEDDED_DICTIONARY; second dictionary compiler dict2inc.pl")
p("C24","Dictionaries made from word lists and sources hold exactly what these say",
"From any list in the columns of reduced_gismu and reduced_cmavo, mkdict.pl and smujajgau make a dictionary with exactly the gloss of each word, the gloss and the word of each of its rafsi (the first four letters of a gismu included), and the class of each cmavo; lujvo lists and NORALUJV.txt give the glosses and places they state through lujvod.pl and noralujv.pl. For any dictionary sources (without place entries of lujvo) dict2inc.pl makes C that compiles and holds exactly the entries that smujajgau makes of the same sources, later entries replacing earlier ones, in the order the lookup needs. The shipped dictionary, as a file and built in, is that of the word lists and sources in the tree.",
["inputs","histories"],"All word lists in the stated columns and all dictionary sources.",
"Tests use the one shipped dictionary and look up few of its entries.",
["mkdict.pl","dict2inc.pl","lujvod.pl","noralujv.pl","smujajgau.c","Makefile.in"],
"Fixed-column parsing in Perl; escaping and sorting for generated C; order of the sources in the Makefile")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
