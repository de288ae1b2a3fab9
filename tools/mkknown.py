"""writes known_findings.json"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []
def known(p, what, where): K.append({'property': p, 'status': 'known', 'what': what, 'identified_by': where})
def fixed(props, commit, what):
    for p in props.split(): K.append({'property': p, 'status': 'fixed', 'commit': commit, 'entry': 'fixed: property=%s %s %s' % (p, commit, what)})
known('C02', "the bracketed form of 'ui pei nai' shows no nai: the nai of an indicator suffix 'pei nai' is left out (tests tree_uicai/15 and /20 pin it)", 'tree.c print_bracketed, text "ui nai pei nai"')
known('C05', "'zo zoi' and a zoi inside lo'u..le'u start a zoi quotation instead of being quoted themselves", "lex1.c process_word, text \"zo zoi\"")
known('C05', "ba'e in front of the nai or cai suffix of an indicator is lost", "lex2.c, text \"mi ui ba'e nai klama\"")
known('C05', 'digits inside a zoi quotation are replaced by number words', 'lex1.c, text "zoi gy 5 gy"')
known('C18', 'lists of some 50000 words or more overrun the stack of the recursive tree walks, in every output format', 'text "mi " repeated 100000 times, then klama')
for p, c, w in [('C18 C07', '552dbd0', 'cmene containing yy ran the bad-cmene automaton off its table'), ('C18', '7f2f502', 'never ended when the text ended inside a comment'),
  ('C09', '09745b9', "words after a digit or ':' were reported at the digit's position"), ('C18', '6eb5f74', 'a long zoi delimiter overran its buffer'),
  ('C18', '3a64829', 'names with several embedded la/doi or many commas overran the stack'), ('C18', '52c0c2d', 'a word of 64K characters overran the word buffer'),
  ('C05 C18', '1d67441', "an empty lo'u le'u quotation ran off the token list"), ('C18', 'd2950da', 'bu at the start of the text failed an assertion'),
  ('C05', 'f1d8338', "ba'e in front of a word made a letteral by bu was lost"), ('C18', '39f3f9c', "lo'u .. le'u as part of a zei compound failed an assertion"),
  ('C18', 'b1944ec', 'a text ending in the beginning of a tense crashed the parser'), ('C02 C05', '79efdd6', 'nai and cai words after indicators were lost or misplaced in the output'),
  ('C05', '3320a82', "bracketed output showed la'o quotations as zoi"), ('C18', '9c31634', '-w without an argument crashed'),
  ('C14 C18', '83bc877', "terms before 'gihek ke' bridi tails got places from an uninitialised vector"), ('C18', 'b23a156', 'more sumti or fai places than MAX_POS ran off the place tables'),
  ('C18 C14', 'e8ab33c', 'more than 20 terms or conversions on one selbri overran the term vectors'), ('C15 C18', '87655d1', 'HTML output never ended on a gloss containing & < or >, and did not escape Lojban text'),
  ('C18', 'a77f364', 'blocked text output overran its buffers'), ('C18', 'fdb7bbf', 'glossing lujvo and zei words with many components overran the component table'),
  ('C13 C18', '01adc69', 'glosses built from many components overran or corrupted the shared buffers'), ('C18', '428b857', 'long quotations, zei words and numbers overran the buffers of the glossed output'),
  ('C15 C18', 'ac715d6', 'LaTeX output did not escape Lojban and tag text and overran its buffers'), ('C15', 'ddf9065', 'blocked LaTeX output lost the words after the last bracket'),
  ('C20', '88b2f3c', '-bt wrote the indentation of its rules to standard output'), ('C18', '0bfac28', 'more than 1024 reductions before a syntax error overran the backtrace table'),
  ('C18', '9ff1b60', 'bracketed output overran the stack on lists of some 130 words'), ('C09', 'f490d81', 'a cmavo with invalid characters was reported without its line and column')]: fixed(p, c, w)
exec(open(os.path.join(V, 'tools', 'known_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'known_more.py')) else None
json.dump(K, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
