G = 'Trusts the frozen grammar, cmavo list and marker rules in ref/ and model/ as the statement of the language. Random search: shows the presence of violations, not their absence.'
t('C01', 'grammar-based generation (every rule pair, every LALR state, mutants) against a reference LALR(1) parser', G)
t('C02', 'grammar-based generation; printed trees compared with the derivation of a reference parser', G)
t('C03', 'metamorphic testing: random relayouts of generated word lists', 'Same words, different layout: the program is its own oracle; the word list is also compared with the generated one.')
t('C04', 'model-based testing of word histories with erasures, plus metamorphic comparison with the remaining text', 'Trusts the reference erasure model.')
t('C05', 'model-based testing of generated quotations, compounds and indicators against a reference preprocessor', 'Trusts the reference preprocessing model; zoi text without digits.')
t('C07', 'state-cover and random word generation against a reference simulation of the morphology automaton', 'Every reachable state of the reference automaton product is entered and left by every letter. Trusts the frozen automaton source.')
t('C08', 'differential testing of jbofihe -k against vlatai and a reference morphology on generated chunks', 'Trusts the reference morphology.')
t('C09', 'generated erroneous texts; reports compared with a reference parser with immediate error detection', G)
t('C10', 'generated word lists (every table word, every consonant pair at joins, break-up prone forms, options) against a reference lujvo maker, scorer and morphology', 'Trusts the frozen rafsi table and the scoring formula; above 65536 combinations only the printed forms are judged.')
t('C11', 'round trips jvocuhadju -> vlatai -el, all spellings of one compound, random lujvo shapes against a reference splitter, stored entries looked up under other spellings', 'Trusts the frozen rafsi table and reference splitter.')
t('C12', 'model-based testing of smujajgau run histories: reference map, lookups through cmafihe and jbofihe, redivision of the same lines', 'Trusts the reference map; lookups of keys made of letters and apostrophes.')
t('C16', 'generated texts and dictionaries against a reference scanner, gloss and layout model, in every output mode and random widths', 'Trusts the reference scanner; ASCII texts.')
t('C17', 'generated automaton descriptions; the compiled tables of every option set are compared with a direct simulation of the description on covering and random token sequences; damaged descriptions must be refused', 'Trusts the reference reading of the description language.')
t('C18', 'generation and mutation fuzzing of texts, options, word lists, dictionaries and automaton descriptions against AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer builds, with a time limit', 'Lists are kept below 20000 words and nesting below the parser limit (see the known finding).')
t('C14', 'generated bridi (and random derivations) whose printed place tags are compared with a reference place assignment on the tree of the reference parser', 'Trusts the place rules stated in model/places.py; termsets, cei and connected abstractors, which jbofihe says it does not tag, are not judged.')
t('C19', 'metamorphic testing of generated runs: same input from file and stdin, options permuted, environment, heap contents, dictionary place and preceding text varied, diagnostic options added', 'The -ie terminators after the last word are not compared between a text alone and after other text.')
t('C15', 'generated texts, dictionaries and widths; the LaTeX output is parsed strictly into words, glosses, tags and brackets, and every other format must be exactly the rendering of these', 'Comparison ignores where plain and HTML forms put blanks (at least one between words); the text block form is compared exactly, the LaTeX block form up to blank lines.')
t('C06', 'metamorphic testing of generated texts: terminators shown by -ie are written in, omissions suggested by -se are carried out, and the labelled trees with the terminators left aside are compared', 'Assumes that a same tree means the same structure; whether more could be omitted is not judged for ke\'e, me\'u and words followed by free modifiers.')
t('C13', 'generated texts and random dictionaries; the sequence of words, glosses and tags parsed from the LaTeX output is compared with an independent glosser on the tree of the reference parser', 'Not judged: glosses of words converted by a bare jai, of se itself.')
t('C21', 'generated texts; the numbered brackets parsed from the LaTeX output are compared, as spans of words, with the constructs found on the tree of the reference parser', 'Not judged: ke\'a with a subscript, inside goi/pe phrases, or in a clause before the noun.')
t('C20', 'generated texts outside the grammar (one per automaton state and wrong word, mutants, natural bridi); each diagnostic is replayed on an independent LALR automaton of the frozen grammar, and expected classes are tried out', 'Only the first diagnostic of a text is judged; classes opened by internal markers by the automaton only.')

t('C22', 'fault injection over generated dictionaries: random truncation, corruption and replacement of the compiled file (plain with bounded memory, and ASan), file size limits at every byte and failing destinations while writing (dictionaries, and the output of every program), missing files; judged by the byte image of a reference dictionary', 'Not judged: what is printed with bytes changed inside a dictionary of the right size; write errors on standard error.')

t('C23', 'differential testing of three builds (gcc -O1 mapped, clang -O3 --nommap, gcc -O2 --embed) on generated texts, option sets, dictionaries, word lists and automaton descriptions', 'Not judged: other architectures and operating systems, --plist.')

t('C24', 'generated word lists and dictionary sources written from known entries; the dictionaries and the compiled C that the scripts make of them are compared, entry by entry and byte by byte, with these entries; random entries of the shipped dictionary against the word lists', 'Not judged: place entries of lujvo in built-in dictionaries.')
