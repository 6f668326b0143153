def add(prop, LX):
    PAT, RUL, TOK = LX + "containers/patterns", LX + "containers/rules", LX + "containers/tokens"
    AST, RES, ROOT, MIS = LX + "asts", LX + "asts/results", LX + "roots", LX + "asts/mistakes"
    APP = "applications/languages/lexers"
    prop("L01", "A cardinality accepts exactly the amounts it denotes",
      "`?`, `*`, `+`, `{n}`, `{n,}` and `{n,m}` (n <= m, surrounding white space allowed) are read as the intervals they denote, their delimiters are those bounds, and an amount is accepted exactly when it lies in the interval, bounds included. "
      "The pattern string of any cardinality is read back as the same interval, and malformed texts (zero or negative amounts, signs, letters, three numbers, unclosed braces) are refused.",
      ["inputs"], "all cardinality texts, built cardinalities and amounts", "The tests try a few amounts on a few cardinalities.",
      [LX + "cardinality"], [("reading and writing", LX + "cardinality/adapter.go"), ("IsValid", LX + "cardinality/cardinality.go")],
      technique="interval oracle over generated texts and amounts", note="whole acceptance tables around both bounds; round trip of the pattern strings")
    prop("L02", "A pattern discovers exactly the text its series and groups describe",
      "A group matches its longest element that starts the text, a serie matches its groups one right after the other, a reversed serie (`@`) takes everything up to the first place where the serie matches (or the end), and a pattern consumes its series in order; its result is at the first index where something is discovered and tells the discoveries in order, the remaining text and, when the end is missing, the group expected next. "
      "In a list of patterns the least index wins, then a complete match over a partial one, then the order of the list.",
      ["inputs"], "all pattern scripts and texts", "The tests sample a handful of patterns and one text each.",
      [PAT], [("matching", PAT + "/adapter.go"), ("longest element", PAT + "/group_content.go")],
      technique="reference-model monitor (independent pattern matcher) over generated scripts and texts", note="discoveries, index, completeness, next group and remaining text are compared, as well as what was read from the script")
    prop("L03", "A rule matches its constant or its patterns, as often as its cardinality allows",
      "A constant rule is found at its first occurrence in the text. A pattern rule repeats its patterns from the start of the text, complete matches right after one another, at most the maximum of its cardinality, and matches exactly when the amount satisfies that cardinality (never zero times); the result tells the amount and the matched text. "
      "Rules are read from their script with their name, patterns and cardinality, and unknown patterns or malformed cardinalities are refused.",
      ["inputs"], "all rule scripts and texts", "The tests read one script and never match it.",
      [RUL, RES], [("reading", RUL + "/adapter.go"), ("matching", RES + "/adapter.go")],
      technique="reference-model monitor over generated rules and texts", note="independent recogniser of rules; read-back of every field")
    prop("L04", "A token script is read back exactly, whatever its layout",
      "Every token of a script is read with its name, its lines in order, each with its instructions in order (elements and channel switches, a trailing switch included), the rule or token, cardinality and specifiers of every element, its not block and its test texts, whatever white space separates them. "
      "Unknown rules, empty lines, zero or malformed cardinalities and unterminated tokens are refused.",
      ["inputs"], "all token scripts and layouts", "The tests read one script with one layout.",
      [TOK], [("reading", TOK + "/adapter.go")],
      technique="round-trip monitor: generated grammar printed with random layout and read back", note="every field of the read grammar is compared with the generated one")
    prop("L05", "The lexer reads a script exactly as its grammar says",
      "From the start of the script, a token matches the line that consumes the most text (the first of equals, and never an empty one) and its elements one right after the other, each repeated greedily up to its maximum and at least its minimum times, optional elements being skipped when absent; references to other tokens, recursive ones included, follow the same rule. "
      "A script is accepted exactly when the root token matches, and the tree then has exactly the lines, elements, repetitions and texts of that reading; text after the match is left out.",
      ["inputs"], "all grammars without left recursion and all scripts", "The tests lex a few fixed scripts of one grammar.",
      [AST, RES, LX + "resources", APP], [("matching of lines and blocks", AST + "/tokens/adapter.go"), ("repetition of rules", RES + "/adapter.go")],
      technique="differential monitor against an independent recogniser over generated grammars and scripts", note="acceptance, tree and root compared on derived and mutated scripts; recursive, nested and ambiguous grammars included")
    prop("L06", "No character is lost, added or moved in the tree of an accepted script",
      "At every node of the tree, the text of the node is the concatenation, in order, of the texts of its parts, and the text of the root starts the script. "
      "The root given to parsers holds the same occurrences: every node its name, all its occurrences in order with their own text and sub elements, its content being their concatenation; scanning, fetching, amounts and existence agree with them.",
      ["inputs"], "all accepted scripts of all grammars, those of the base language included", "The tests never look at the texts of the tree.",
      [AST, ROOT, APP], [("tree building", AST + "/adapter.go"), ("grouping", ROOT + "/adapter.go")],
      technique="conservation monitor over every node of every tree", note="text conservation by concatenation, grouped view recomputed from the tree, getters checked against each other")
    prop("L07", "Reading a script depends on the script alone",
      "The tree, root, mistake and error obtained for a script and grammar are the same whichever scripts and grammars the lexer read before, accepted, refused, malformed, with references or not, and whichever instance is used. "
      "Observing a tree or root never alters it, and earlier results stay as they were.",
      ["histories"], "all sequences of calls on one instance", "The tests make one call per instance.",
      [APP, AST, ROOT, LX + "references"], [("state of the application", APP + "/application.go")],
      technique="history-independence monitor: interleaved calls against fresh instances", note="one instance runs a random history; every answer is compared with the one of a fresh instance, and re-observed at the end")
    prop("L08", "A refused script yields one mistake that lies inside it",
      "Lexing gives either a tree or a mistake, never both and never neither. A mistake has the index, line and column of one place of the text the refused token was tried on, names a token or rule of the grammar, the tokens above it refer to one another down from the root, and it tells one reason that is true of the grammar: a missing element, a not block that matched, or an amount outside the cardinality it shows.",
      ["inputs"], "all refused scripts", "The tests check one mistake.",
      [MIS, AST], [("mistakes", MIS), ("choice of the mistake", AST + "/adapter.go")],
      technique="exclusivity and bounds monitor over refused scripts", note="position consistent with the script, names of the grammar, chain of parents that refer to each other, one content kind, amounts that are invalid indeed")
    prop("L09", "Channel texts are ignored exactly where channels are active",
      "Between the elements of a script, texts of the channels are skipped where channels are active, and only there: they are active unless switched off by `#`; the switch applies after the element that follows it, a second one activates them at once, and tokens inherit the state of where they are used; they are off inside of a channel text until it switches them, and a channel text never begins with another. "
      "Inserting channel texts between the elements of an accepted script with active channels leaves its tree the same but for them, and where channels are off they are treated as ordinary text.",
      ["inputs"], "all grammars with channels and switches, all places of insertion", "The tests use one channel at one place.",
      [AST, TOK], [("channels", AST + "/tokens/adapter.go"), ("switch", TOK + "/adapter.go")],
      technique="metamorphic and differential monitor: channel texts inserted at every kind of place", note="reference recogniser tells where insertion is legal; stripped trees must equal the original")
    prop("L10", "Referenced and replaced tokens behave as if they were written in place",
      "A script that includes other scripts, refers to their tokens and replaces some of them reads texts exactly as the single script in which the referenced tokens are written in place, each include with its own replacements only, whatever the number, order and nesting of the includes and whichever names the scripts share; the rules of included scripts are made of the patterns of the grammar that includes them. "
      "A reference to an unknown include, file or token, or a replacement by an unknown token, is refused.",
      ["inputs"], "all ways of splitting a grammar over linked files", "The tests link a single file.",
      [LX + "references", LX + "resources", APP], [("includes and references", LX + "references"), ("replacement", APP + "/application.go")],
      technique="differential monitor: split grammar against the same grammar inline", note="grammars split over up to six files with references, replacements, nested includes and colliding names, against the reference reading of the inline grammar; broken references of 8 kinds must be refused")
    prop("L11", "Test suites tell the truth about their grammar",
      "Running the tests of a grammar reports every token that has tests once, every non-empty test text in order, and a text succeeds exactly when lexing it alone with that token as root is accepted. A lexer that is given tokens to read in the place of those that a grammar refers to reads them there, in suites and texts alike.",
      ["inputs"], "all grammars and test texts", "The tests run the base grammar's suites, whose lines all succeed.",
      [LX + "suites", APP], [("suites", LX + "suites"), ("Tests", APP + "/application.go")],
      technique="differential monitor: suites against single lexing and the reference recogniser", note="each line of each suite against single lexing and against the reference recogniser")
    prop("L12", "Parsing calls the right event once per element and keeps what it gives",
      "For every element asked for, the events of its name are tried in order until one succeeds and its result is the one kept, once per occurrence in order; an element without event, or whose events all fail, is an error. "
      "One result is given alone, several as the list of all, and asking for a nested element finds it as scanning the root does.",
      ["inputs", "histories"], "all roots, event tables and failing events", "The tests dispatch a single event.",
      ["applications/languages/parsers"], [("dispatch", "applications/languages/parsers")],
      technique="event-log monitor: recording events against the expected trace", note="traces of scripted events that fail, ask, forward and nest, values compared with a simulation over the root")
    prop("L13", "Programs of the base language are parsed into what they say",
      "A program made of the instructions of the base language, nested at will and laid out with any channel texts (white space, comments), is accepted, and so is a part of one read by itself from its own token, and parsing it gives back its instructions, names, kinds, operators, values, conditions, lists and function calls, all of them and in order.",
      ["inputs"], "all programs of the base language", "The tests parse one example per construct.",
      ["domain/languages/scripts/base", "domain/languages/scripts/resources/base"], [("events", "domain/languages/scripts/base/parsers/helper.go"), ("grammar", "domain/languages/scripts/resources/base")],
      technique="round-trip monitor: generated programs printed, lexed, parsed and compared", note="programs printed from a model with random layout and comments, nested up to 14 levels; names, kinds, operators, values, groups and order compared with the parsed program; 24 tokens of the language also read alone")
    prop("L14", "Programs outside the base language are refused",
      "A text that differs from a program of the base language by a missing or wrong delimiter, operator, keyword, name or value, so that no reading of it exists, is not accepted as that program: it is refused or only the part before the error is read.",
      ["inputs"], "all single corruptions of programs", "The tests lex valid texts only.",
      ["domain/languages/scripts/base", "domain/languages/scripts/resources/base"], [("grammar", "domain/languages/scripts/resources/base")],
      technique="rejection monitor over corrupted programs", note="eight kinds of single corruptions; an independent recogniser of the base language tells whether a reading exists and how far it may go")
    prop("L15", "Numbers written in a script keep their value",
      "Every integer literal, signed or not, and every float literal parses to exactly the number written, rounded once to the size of the machine's floats; numbers that do not fit are refused instead of being changed.",
      ["inputs"], "all numeric literals and bit sizes", "The tests parse three numbers.",
      ["domain/languages/scripts/base/parsers"], [("numbers", "domain/languages/scripts/base/parsers/helper.go")],
      technique="value-fidelity monitor with big-number oracle", note="integers and floats of every size and sign, limits of each bit size included, against math/big")
    prop("L16", "A part built by hand is exactly what its builder was given",
      "Every part of a program, grammar, resource, path, mistake or root gives back exactly what its builder was given, in order, tells exactly which optional parts and which alternative it has, finds by name the parts it holds, no other, and tells the truth about how much it holds (exactly, at least, or between two bounds, both included). "
      "It is built only when its mandatory parts were given, whatever the order in which they were; an empty name or list is no part where one is needed (the constant of a rule may be empty), and tokens or rules of the same name are refused together. A builder obtained from another with Create starts empty, and building others never alters a part.",
      ["inputs", "histories"], "all sets and orders of values given to the builders", "The tests build parts through the readers only.",
      ["domain/languages", "applications/languages/parsers"], [("parts of programs", "domain/languages/scripts/base/parsers"), ("parts of grammars", "domain/languages/lexers")],
      technique="conservation monitor over reflectively driven builders", note="about 110 kinds of parts built of one another from drawn subsets of values, in any order, from used builders; every getter, every answer and every search compared, at once and again at the end")
    prop("L17", "No grammar or script crashes or hangs the lexer",
      "Reading any text as patterns, rules, tokens, channels, references, cardinality or script, and lexing any script with any grammar that was accepted and is not left recursive, ends with a value or an error, without panic, and in bounded time: reading takes seconds at most for a text of a few hundred characters, and neither the nesting of a script nor the references between the tokens of a grammar multiply it at each level. A script that includes itself, directly or through others, is refused.",
      ["inputs"], "all texts, altered valid scripts in particular", "The tests read valid scripts.",
      ["domain/languages/lexers", APP], [("readers", PAT + "/adapter.go"), ("readers", TOK + "/adapter.go"), ("lexing", AST + "/tokens/adapter.go")],
      technique="robustness monitor: grammar and script mutation with panic and time watchdogs", note="mutated grammars, grammars of noise, references, cardinalities, scripts with every legal mode, nested and long programs, grammars of up to 25 levels of multiple references, scripts that include themselves; panics, missing outcomes and 20 s of processor time per reading are violations")
    prop("L18", "Lexers and parsers used at the same time do not disturb each other",
      "Lexers, their builders, the readers of patterns, rules, references and cardinalities, and parsers give the results they give alone, without data race, when many goroutines use them at once, each with its own or all with one shared instance, on the same or on different scripts and grammars; so do the trees, roots, paths, token lists and programs they gave, and the parts built by hand, observed by many at once.",
      ["schedules"], "all interleavings", "The tests are sequential.",
      ["domain/languages", APP, "applications/languages/parsers"], [("builders and adapters", APP + "/builder.go")],
      technique="Go race detector plus result oracle under concurrent stress", note="8 goroutines over random mixes of 19 operations with shared and own instances, what is shared is made anew for every stage, shared results and about 110 kinds of parts observed, files included, base language parsed")
    prop("L19", "The path of a token describes it whole",
      "The path of a token of a grammar holds its lines in order, must block and not block apart, each with its switches and elements in order and their cardinalities and specifiers; rules are the ones named, references hold the element of their token written in place, but for those to a token being written, which are recursive; every token of the grammar, and no other, is found by name as a dependency of it, in the same way. "
      "Paths asked before and after, of any token, are the same. A grammar that refers to a token that is nowhere, or in which the single element of a line is the token itself, has no path.",
      ["inputs", "histories"], "all grammars", "The tests check that one path is built.",
      [AST + "/paths", APP], [("paths", AST + "/paths" + "/adapter.go")],
      technique="differential monitor: paths against the expansion of the generated grammar", note="whole paths written out and compared, left recursive and mutually recursive grammars included, several paths of one lexer observed again at the end; three kinds of wrong grammars")
    prop("L20", "Specifiers bound how often an element occurs inside a reference",
      "A reference with specifiers is accepted exactly when, for each of them, the number of occurrences of the named rule or token directly inside the matched occurrences of the reference, taken together, satisfies its cardinality, and the reference's own cardinality holds. "
      "Where it is not, the element counts as absent: skipped if it is optional, refused otherwise.",
      ["inputs"], "all grammars with specifiers and all scripts", "The tests use one specifier.",
      [AST, TOK], [("counting", AST + "/tokens/adapter.go")],
      technique="differential monitor against an independent recogniser, dedicated grammars", note="repeated, optional and shared names around both bounds")
    prop("L21", "A not block refuses exactly what it matches",
      "A token with a not block matches exactly where its must block matches and no line of the not block matches at the same place, and then gives the reading of its must block. The not block never makes a token match that its must block does not.",
      ["inputs"], "all grammars with not blocks and all scripts", "The tests use one not block.",
      [AST, TOK], [("not block", AST + "/tokens/adapter.go")],
      technique="differential monitor against an independent recogniser, dedicated grammars", note="not blocks drawn as prefixes, variants and copies of the must block")
    prop("L22", "A legal prefix is skipped up to the first place where the root reads, an illegal one is refused",
      "When the content says that a prefix is legal, its tree and root are those of the root token read at the first place of the text where it reads, channels, not blocks, specifiers and recursion included, and a mistake is given only when it reads nowhere. "
      "When it does not, a text is accepted only if the root reads at its very beginning, and then with the same tree; whether a suffix is legal changes neither.",
      ["inputs"], "all grammars, all scripts and all texts before them", "No test reads a content with a legal prefix.",
      [AST, LX + "contents", APP], [("skipping of the prefix", AST + "/adapter.go"), ("legality of the prefix", APP + "/application.go")],
      technique="differential monitor against an independent recogniser tried at every place of the text", note="prefixes of foreign characters, of the alphabet of the grammar, of cut texts of its tokens and of wide characters")
