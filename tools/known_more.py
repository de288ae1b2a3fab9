fixed('C08', '5403645', "zoi or la'o as the last word of the text was silently dropped")

for p, c, w in [('C12', 'f7dd303', 'smujajgau lost the last character of a file that does not end in a newline'), ('C18', 'ef3b98e', 'smujajgau read outside its buffer on an empty key'),
  ('C12 C18', '4122572', 'keys or values of over 255 characters corrupted the whole dictionary'), ('C11 C12', '65aaed9', "entries of lujvo containing an apostrophe took over another compound's entry, or were not found"),
  ('C13 C12', '6db9b0b', "the entry of a fu'ivla was used for compounds of unknown rafsi"), ('C13 C12', '8d058fd', "entries with the documented suffix 'a' for the qualifier form were never used"),
  ('C18', '14dd512', 'jvocuhadju overran its buffers on components of more than 5 letters')]: fixed(p, c, w)
fixed('C11 C13', '8de8d69', 'lujvo written with commas were split into the wrong components')
fixed('C13', '92a2d0d', 'words written with commas were not found in the dictionary')
for c, w in [('b4d1040', 'cmafihe -b overran its line buffers with widths or items of over 512 characters'), ('40a59a4', 'cmafihe crashed on -w without an argument'),
  ('317aed3', 'cmafihe overran its buffers on long compound cmavo'), ('247117b', 'cmafihe overran its buffers on long brivla'),
  ('7490d7a', 'cmafihe read before the start of its buffer on unknown cmavo starting with a vowel')]: fixed('C18', c, w)
fixed('C16', '9a36411', 'cmafihe glossed lujvo with sel-, ter-, vel-, xel- with a stray hyphen, conversions of later components and dictionary markup')
for p, c, w in [('C17', '2c77f3a', 'dfasyn wrote C that does not compile for descriptions without Prefix'), ('C17', 'b18a455', 'dfasyn merged non-accepting states with different attributes'),
  ('C17', '55ce03d', 'dfasyn tables were silently truncated with more than 256 tokens or 65535 transitions'), ('C17', 'd52aca7', 'dfasyn overran a buffer on a block instantiated inside itself'),
  ('C17', '4cee31c', 'dfasyn crashed on descriptions without a start state or without tokens'), ('C17', '48da8f0', 'dfasyn recursed without end on circular abbreviations and symbols'),
  ('C17', 'd1797b6', 'dfasyn read an unset flag on ambiguous states')]: fixed(p, c, w)
for p, c, w in [('C18', '4de1ff3', 'dfasyn shifted into the sign bit building its subset construction'), ('C18', 'df4379b', 'dfasyn -o or -r without an argument ran past the argument list'),
  ('C18', '69e58bb', 'jbofihe -d printed unset locations at the end of the text and for broken erasures'), ('C18', 'd255411', 'selbri in vocatives were glossed by an unset flag'),
  ('C20', 'd7cc360', 'jbofihe -bt showed empty grammar rules as if they produced themselves'), ('C18', 'cd5aefc', 'jbofihe -bt read past the end of its rule table'),
  ('C20', '7383f0a', '-bt named the wrong rules (each the one after the rule reduced), and -se tested the wrong rules for subscripts')]: fixed(p, c, w)
for p, c, w in [('C14', '03cf40f', "the x1 place added by jai counted as filled when the original x1 was filled inside ke .. ke'e"), ('C14', 'f4d9cca', 'terms linked to a number + moi were all tagged with construct number 0')]: fixed(p, c, w)
fixed('C15', '7eea9ef', 'quoted text with backslash, dollar, caret or tilde was not escaped in LaTeX output')
fixed('C18', '0d22a21', 'place entries of me and moi words were used as printf formats (crash on %s)')
fixed('C15', 'a60aff4', "-x and the other glossed formats left out nai, cai, ru'e etc. when they follow fu'e, fu'o, da'o or y: fu'e ru'e se'a was shown as fu'e se'a")
fixed('C15', '841ed90', 'LaTeX output of "zo lu" and "lu zei broda" held an unescaped dollar ("$OPENQUOTE"), which TeX takes as the start of mathematics')
fixed('C15', 'a8cb4e0', 'line ends inside the tag of jai were shown again at each place tag that translates the tag')
fixed('C06', '3969b4f', "the ke'e elided together with vau after gi'e ke ... was not shown by -ie, and -re accepted the text without it")
fixed('C06', 'f022346', '-se said that the ku of "na ku" could be omitted')
fixed('C06', '726ef8c', '-se said that terminators with ba\'e could be omitted')
fixed('C06', '5d0c1ca', '-se said that a terminator before a free "number mai" could be omitted')
fixed('C06', '2e3db6f', '-se said that ku in "vi ku pu broda" and cu in "mi vi cu pu broda" could be omitted, which joins the tenses')
fixed('C06', '02ab490', '-se said that all terminators between a tense and gi could be omitted: "ke go klama mu\'i ku gi ..."')
fixed('C06', 'edf8cac', '-se said that lo\'o in "li pa lo\'o so\'i cu\'o" could be omitted, and did not say it of boi before a tense')
fixed('C06', 'db60a68', "-se said that a terminator between fragments could be omitted when the words on either side belong together (`to na toi je`, `to .e toi ke broda`)")
fixed('C13', '8eee6ff', "a tense in a place without tense context (vocative, fi'o, ...) was not glossed")
fixed('C13', '53d69b1', 'zei compounds and jai with an indicator were glossed as if they were modifiers')
fixed('C13', '5caf10f', 'tanru modifiers in vocatives and mekso were glossed with the raw dictionary text ("D;dog")')
fixed('C13', '05e76c9', 'se, te, ... before a zei compound modifying a tanru were ignored in its gloss')
fixed('C13', 'f682eb2', "cai, pei etc. and fu'e inside connectives and tenses spoiled or lost their glosses")
fixed('C13', 'dd29646', "conversions outside ke .. ke'e and jai were ignored in glosses of tanru modifiers with linked sumti")
fixed('C13', '97010e0', 'se, te, ... before a BAI with an indicator were ignored in its gloss')
fixed('C21', 'c6bb9e2', "ke'a of a relative clause inside \"lo ko'a poi ...\" was glossed with the number 0")
fixed('C20', '20d4468', '-bt showed the start state as rule "all <-", which the grammar does not have')
fixed('C20', '3694dbd', '-bt listed "error" as a word class that could come next')
fixed('C20', '7ec9310', '-bt listed IMPOSSIBLE_TOKEN as a word class that could come next')
fixed('C20', '10808af', '"Missing selbri before GIhA" gave the place of the word before')
fixed('C20', '7087ae6', 'with -re, places in syntax error messages were always line 1 column 1')
fixed('C13', '47ac4da', '-g glossed a word after se, te, ve, xe with the raw dictionary text, class code or redirection included (klama /D;destination*/)')
fixed('C22', 'b8096c0', 'jbofihe and cmafihe crashed, or used all memory, on a dictionary file that was empty, cut short or no dictionary')
fixed('C22', '3457e0b', 'smujajgau read a database that was cut short, or no database, as far as it went (or crashed) and wrote over it')
fixed('C22', '909ea7c', 'smujajgau exited 0 although the database could not be written completely (full device)')
fixed('C22', 'dfafee3', 'jbofihe, cmafihe, vlatai, jvocuhadju and dfasyn exited 0 although their output could not be written (full device, file size limit)')
fixed('C22', 'b164650', 'jbofihe, smujajgau and vlatai took a read error for the end of the input')
fixed('C23', 'b222412', "with --embed be'o, ge'u and ku'o were glossed although the dictionary sources say they have no gloss")
fixed('C18', '778fffb', 'a dictionary entry redirecting to a string of more than 64 cmavo (klama1:@mimimi...1) overran an array')
fixed('C13', '1ab3d25', "a fu'ivla beginning with a rafsi that the dictionary's patterns speak of was glossed as a lujvo (nalrkokte: 'thing(s) other than ??-??')")
fixed('C18', 'd3ff8bd', 'a dictionary entry redirecting to a compound of the word itself (gerku1:@gergergergerger1) kept jbofihe busy for ever')
fixed('C24', '2589cb7', 'dict2inc.pl (--embed): a backslash in a gloss gave C that did not compile or another gloss; comments with ! or ; became entries; variants of a place defined again were kept')
