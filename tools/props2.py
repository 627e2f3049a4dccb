MC = "model_checking"; TV = "translation_validation"
prop("C03", "Cart data survives every conversion between cart formats",
 "Converting a cart between the formats that hold all of it (p8, png, rom, clipboard) in any order preserves its code, its cart memory (0x0000-0x42ff), and what else the formats have in common (label, title line, version, platform). The url and tiny-rom formats preserve exactly the parts they document (code and graphics; code). What is written is a valid container as PICO-8 defines it: the low two bits of each png colour channel, the checksum of the code, the section layout.",
 ["inputs", "histories"], "every cart memory and code, every chain of formats",
 "Tests convert a handful of carts whose sections are mostly empty or regular and compare with stored output files.",
 ["pico_cart.py", "pico_defs.py", "media_utils.py"], [("containers", "pico_cart.py read_cart/write_cart and the per-format functions"), ("memory", "pico_defs.py Memory")],
 ["bytes of written files", "carts read back"],
 MC, "TLA+ model of containers (memory, code, meta as state; each format a transition with its byte layout); TLC-generated conversion histories replayed, recorded files validated byte by byte",
 "All chains of up to 3 formats over sampled carts; container bytes checked against the specification's own layout.")
prop("C04", "The p8 text sections and the cart memory agree bit for bit",
 "Every byte of the graphics, map, flag, sound and music memory has one place in the text sections of a p8 file, defined by PICO-8's format, and is written to and read from exactly that place. Sections or lines omitted, shortened or (for lower map/shared graphics, label) optional in the text mean PICO-8's defaults (zeros, except the speed bytes of sounds and the empty channels of music), and no input byte affects another byte's place.",
 ["inputs"], "every content of the cart memory; every subset of sections and of trailing lines present",
 "Tests use carts drawn by hand; bits such as the sfx editor/filter bytes, music loop flags and effect bits, and custom-instrument bits, are constant in them.",
 ["pico_cart.py", "pico_defs.py"], [("section reading", "pico_cart.py read_cart_from_source"), ("section writing", "pico_cart.py write_cart_to_source")],
 ["sections of a written p8", "memory of a cart read back"],
 MC, "TLA+ layout specification (byte/bit <-> character map), exhaustive over single-bit memories, checked on recorded files",
 "Exhaustive over every single byte position with several values; sampled full memories.")
prop("C05", "Code characters keep their identity between text and bytes",
 "The 256 PICO-8 characters correspond one to one with their text form (unicode, including multi-codepoint emoji with or without variation selectors), and code read from any encoding and written to any other keeps every character. Text that stands for no character is taken as its UTF-8 bytes, as PICO-8 does. (Carriage returns and NUL are not characters of code.)",
 ["inputs"], "every sequence of PICO-8 characters; every text",
 "Tests hold a few special characters; sequences where one symbol's text is a prefix of another's are not sampled.",
 ["pico_defs.py", "pico_cart.py"], [("charset", "pico_defs.py to_p8str/from_p8str/encode_p8str/decode_p8str")],
 ["code of written carts", "code read back"],
 MC, "TLA+ transducer over the character table, exhaustive over all characters and pairs",
 "Exhaustive over all 256 characters and all ordered pairs; sampled longer texts.")
prop("C06", "Minifying or reformatting text never changes the tokens",
 "When only whitespace, line breaks and comments are to be removed, the output lexes to exactly the sequence of tokens of the input, and the one-line constructs (shorthand if, while and print) end at the same token they ended at in the input. The result never depends on tokens happening to merge (numbers followed by names, adjacent operators, minus signs, dots, long-bracket openers).",
 ["programs", "configurations"], "every sequence of tokens and of line breaks and comments between them; with line removal on or off",
 "Tests hold a few dozen neighbouring token pairs; the separator needed depends on every pair of adjacent tokens.",
 ["pico_output.py", "pico_tokenize.py", "pico_minify.py"], [("spacing", "pico_output.py output_code/need_whitespace_between"), ("lexer", "pico_tokenize.py tokenize")],
 ["code of the written cart"],
 TV, "TLA+ character-level lexer compared on input and output; TLC enumerates all pairs/triples of token classes",
 "All ordered pairs of a set of ~70 token representatives in legal contexts; sampled programs.")
prop("C07", "Number literals keep their value",
 "Whatever form a number is rewritten to (decimal, hexadecimal, binary, negated, complemented, shortened fraction), it denotes the same 16.16 fixed-point value as the original literal, in every context it appears in, and the rewritten program is never one that PICO-8 reads differently. Literals are not made longer. (Decimal literals of more than nine fraction digits whose value is not exact are excluded: how PICO-8 rounds them is not documented.)",
 ["inputs", "configurations"], "every literal form and every one of the 2^32 values",
 "Tests list a few numbers; rounding at the last bit, values near the sign boundary and precedence of a unary minus or complement depend on the value.",
 ["pico_output.py", "pico_minify.py", "pico_utils.py", "pico_tokenize.py"], [("parsing", "pico_tokenize.py / pico_utils.py parse_fixnum"), ("formatting", "pico_minify.py format_fixnum")],
 ["number tokens of the written cart"],
 TV, "TLA+ definition of numeral values (exact rational arithmetic on digits) validated on recorded pairs",
 "All 65536 fractions and boundary-directed integer parts in several forms; sampled otherwise.")
prop("C08", "String literals keep their contents",
 "However a string literal is requoted or re-escaped, it denotes the same sequence of bytes as the original; this holds for every escape sequence, quote, newline, control character and long-bracket level. The result is never a literal that PICO-8 would reject or end early.",
 ["inputs", "configurations"], "every byte sequence in every literal form",
 "Tests hold some strings; a decimal escape followed by a digit, a carriage return, a leading newline of a long bracket or a closing bracket within need specific contents.",
 ["pico_minify.py", "pico_tokenize.py", "pico_utils.py"], [("parsing", "pico_tokenize.py parse_string_literal"), ("formatting", "pico_minify.py format_string_literal")],
 ["string tokens of the written cart"],
 TV, "TLA+ definition of literal contents validated on recorded pairs; TLC enumerates short contents over an alphabet of troublesome characters",
 "Exhaustive over contents of up to 3 characters of a 14-character alphabet in each quoting; sampled longer.")
prop("C09", "Minified programs behave as the original",
 "Under the documented assumptions, a minified program makes the same observable calls with the same arguments in the same order, prints the same text and leaves the same results as the original, for every minify option and focus. The minified code is always accepted by PICO-8 again.",
 ["programs", "configurations"], "every PICO-8 program that meets the documented assumptions; every combination of focus, safety and no-minify options",
 "Tests compare the minified text of a few carts with stored text; they cannot say which of the rewrites (grouping, shorthands, merged statements, reordering, renaming) is right for a new program.",
 ["pico_minify.py", "pico_rename.py", "pico_parse.py", "pico_output.py", "pico_constfold.py"], [("rewrites", "pico_minify.py minify_code"), ("merging", "pico_minify.py minify_merge_assignments"), ("renaming", "pico_rename.py rename_tokens")],
 ["code of the written cart, executed"],
 TV, "TLA+ operational semantics of PICO-8 Lua; TLC runs the original and the real tool's outputs and compares their observations",
 "Generated programs aimed at each rewrite, run by TLC within fuel bounds; programs that raise errors are not compared.")
prop("C10", "Renaming keeps every name bound to the same variable",
 "After renaming, each occurrence of an identifier refers to the same variable (local, parameter, loop variable, label) as before, distinct globals stay distinct, distinct member names stay distinct, and no renamed name captures, shadows or collides with another variable, a keyword or a builtin that is used. Builtins and callbacks that PICO-8 calls keep their names.",
 ["programs", "configurations"], "every program and scoping structure; every focus and renaming option",
 "Tests compare against stored names of a few carts; capture depends on the whole scope structure and frequencies.",
 ["pico_rename.py", "pico_parse.py"], [("scopes", "pico_parse.py Scope/LocalVar"), ("choice of names", "pico_rename.py")],
 ["identifiers of the written cart", "the rename map"],
 TV, "TLA+ resolution of names to binders, run by TLC on both token sequences and compared position by position",
 "Generated scope structures with few-letter names; all renaming modes.")
prop("C11", "Renaming obeys every documented hint and preserve rule",
 "Identifiers that hints, the preserve options, wildcards and negations or safe renaming say must be kept are kept, the ones forced to a name get it, strings marked as names are renamed exactly as the names are, and everything else may be renamed. The rename map states exactly the renaming that was done.",
 ["programs", "configurations"], "every combination of preserve rules, per-occurrence hints, key hints and string hints",
 "Tests hold one cart per hint; precedence between overlapping rules and negations is not sampled.",
 ["pico_rename.py", "pico_process.py", "pico_parse.py", "pico_minify.py", "scripts/split.py"], [("rules", "pico_rename.py IdentifierRenames / preserve patterns"), ("hints", "pico_parse.py / pico_tokenize.py hint parsing")],
 ["identifiers and strings of the written cart", "the rename map file"],
 TV, "TLA+ specification of hints, rules and split strings in the scope machine (Names.tla), stepped by TLC through each program, its renamed output and the rename map of the real tool",
 "Random programs, hints, rules and formats of split strings; wildcards are decided by a TLA+ matcher over rules of up to three patterns.")
prop("C12", "Constant folding gives the values PICO-8 would compute",
 "Replacing constant expressions, constant variables and constant branches never changes the behaviour of the program: each folded value equals the one PICO-8 computes, constant variables are replaced only where they hold that value, and only code that cannot run is removed. Constants given on the command line act as if declared at the top.",
 ["programs", "configurations"], "every constant expression over every operator and foldable builtin; every use of const hints, branches and command line constants",
 "Tests fold a few dozen expressions; overflow, rounding of division, shifts, string/number conversions and scoping of constants depend on values.",
 ["pico_constfold.py", "pico_minify.py", "pico_parse.py"], [("operators", "pico_constfold.py lua_*"), ("branches and declarations", "pico_constfold.py fold_consts")],
 ["code of the written cart, executed"],
 TV, "TLA+ fixed-point arithmetic and operational semantics; TLC evaluates original and folded programs and compares",
 "Boundary-directed operand grid for every operator, generated programs with const hints.")
prop("C13", "Unminifying preserves the program",
 "The reformatted program has the same tokens and structure as the original apart from layout and optional separators, is accepted by PICO-8, and behaves identically; comments are all kept. Its output can be reformatted again without changing it further but for layout.",
 ["programs", "configurations"], "every program, including shorthands and code without any whitespace",
 "Tests reformat three carts; which separators may be dropped or line breaks inserted depends on neighbouring tokens.",
 ["pico_unminify.py", "pico_output.py"], [("reformatting", "pico_unminify.py unminify_code")],
 ["code of the written cart"],
 TV, "TLA+ operational semantics and token comparison on original and reformatted programs",
 "All token pairs in context, generated programs.")
prop("C14", "Token, character and size counts are PICO-8's",
 "The reported numbers of tokens, characters and compressed bytes of the input or output cart are those PICO-8's own rules give: which tokens count, what a character is, and the size of the code section as written. The percentages printed are of PICO-8's limits (8192 tokens, 65535 characters, 15616 compressed bytes).",
 ["programs"], "every program",
 "Tests check the counts of a few carts only.",
 ["pico_tokenize.py", "pico_cart.py", "run_shrinko.py", "pico_compress.py"], [("token count", "pico_tokenize.py / pico_process.py count"), ("printing", "pico_utils.py / run_shrinko.py")],
 ["printed counts"],
 MC, "TLA+ count of a token sequence and a code section, validated on recorded runs",
 "Generated token sequences; the rules are transcribed from PICO-8's documented costs.")
prop("C15", "Lint reports exactly the documented problems",
 "Lint warns about every use of a global that is neither assigned where the documentation allows it, nor a builtin, nor named by an option or hint; about every global only assigned and never used; about every local, last parameter or label never used; and about every local or label that repeats one visible in the same or an outer scope - as README describes, once each, at the line where it stands, and about nothing else. Options and hints switch off exactly what they name. With warnings the exit code is 2 and no cart is written; with --no-lint-fail or without warnings it is 0 and the cart is written.",
 ["programs", "configurations"], "every program and scope structure; every lint option and hint",
 "Tests check one or two carts' stored warnings.",
 ["pico_lint.py", "pico_parse.py", "run_shrinko.py"], [("lint", "pico_lint.py lint_code")],
 ["printed warnings", "exit code", "whether an output was written"],
 MC, "TLA+ definition of each warning over the scope structure, evaluated by TLC on generated programs and compared with the recorded warnings",
 "Generated programs over few names so that shadowing and reuse are common.")
prop("C16", "Includes and error locations are as PICO-8 defines them",
 "Included files (lua, carts, single tabs of carts, relative paths) are inserted exactly where the directive stands and nothing else in the code is changed; directives inside comments and strings are left alone. Every error or warning names the file, tab and line where the offending text really is. (Files that include themselves are excluded, and so are missing files named in other files than the main one; the line break that ends a Lua file is not part of it.)",
 ["inputs", "programs"], "every arrangement of include directives, files, tabs and comments; every line of an error",
 "Tests include a few files; offsets after several includes, tabs and multi-line tokens are not sampled.",
 ["pico_preprocess.py", "pico_cart.py", "pico_process.py", "pico_tokenize.py"], [("preprocessing", "pico_preprocess.py preprocess_code"), ("locations", "pico_process.py SubLanguage/CodeMapping")],
 ["code read", "printed errors"],
 MC, "TLA+ machine that expands a tree of files line by line and maps every output line to its origin; TLC generates arrangements that are replayed",
 "All arrangements of up to 3 directives over small files; sampled larger.")
prop("C17", "Exports hold exactly the carts put into them",
 "An exported game (js or pod) made from carts or from another export holds exactly these carts, in their order and under their names. Inserting, replacing, deleting or renaming a cart in an export changes exactly that and nothing else in the file; an operation on a missing name, or one that would give two carts the same name, is refused and leaves the file as it was. Listing, dumping and reading give exactly the carts held. (Names are file names, without folders, commas or quotes.)",
 ["inputs", "histories"], "every sequence of creating, editing and reading exports",
 "Tests create single exports and compare them with stored ones.",
 ["pico_export.py", "run_shrinko.py"], [("js", "pico_export.py JsExport"), ("pod", "pico_export.py PodFile, PodExport"), ("operations", "pico_export.py CartExport.write_cart, run_shrinko.py handle_output")],
 ["export files", "lists, dumps and carts read back", "exit code"],
 MC, "TLA+ model of an export as a sequence of named entries; TLC-enumerated histories replayed through the command line and judged step by step",
 "Histories of 1 (about 60 %) and 2 (sampled) operations, 3 in the thorough tier, over exports of up to 4 carts.")
prop("C18", "Merging, labels, titles and versions change only what they name",
 "Merging named sections of another cart, replacing the label, the title or the version changes exactly these parts of the cart and leaves every other byte, character and metadata as it was. Unknown names are reported.",
 ["inputs", "configurations"], "every pair of carts and every list of section names and overriding options",
 "Tests merge one pair of carts.",
 ["pico_cart.py", "run_shrinko.py", "pico_defs.py"], [("merge", "pico_cart.py merge_cart"), ("label/title", "pico_cart.py / run_shrinko.py")],
 ["sections of the written cart"],
 MC, "TLA+ cart record with a transition per option; TLC-generated option lists replayed",
 "All subsets of up to 2-3 sections; sampled carts.")
prop("C19", "The command line fails safely",
 "Every run of the PICO-8 command line ends, with the documented exit code: 0 done, 1 errors in the code, 2 warnings, 3 failure, 4 missing include. It ends with 0 only if every output named was written completely; otherwise outputs not yet written are left as they were before (none is created or damaged). Input files are never modified (unless also named as the output), and no other files appear. Malformed programs and missing or unwritable files are reported without an internal error; damaged containers and endlessly recursive includes may end in one, but with a non-zero exit code and without anything written.",
 ["inputs", "configurations", "fault_sequences"], "every sequence of bytes as an input of any format; every program, including malformed ones; option lists; every place to write to",
 "Tests only feed valid carts plus a few bad ones.",
 ["run_shrinko.py", "pico_cart.py", "pico_preprocess.py", "pico_tokenize.py", "pico_parse.py", "pico_compress.py"], [("main", "run_shrinko.py"), ("reading", "pico_cart.py")],
 ["exit code", "files after the run", "standard error"],
 MC, "TLA+ machine of a run (CliRun) whose scenarios TLC enumerates and checks (CliGen); a sample is carried out with damaged and mutated inputs and judged by CliTrace",
 "About 12 000 scenarios checked; about 1400 runs over generated inputs.")
prop("C20", "Picotron data formats are read and written exactly",
 "Picotron's compressed and encoded values (lz4 blocks, pxu arrays, base64, pod text) that the tool writes are valid and decode to exactly the value encoded, and every valid encoding is read as the value it stands for, also when it is written again in another form (--uncompress-pods, --base64-pods).",
 ["inputs"], "every byte sequence, every numeric array, every pod value; every valid stream",
 "Tests convert a few stored files.",
 ["picotron_fs.py", "picotron_cart.py", "pico_compress.py", "utils.py", "picotron_defs.py"], [("lz4", "picotron_fs.py lz4_*"), ("pod", "picotron_fs.py Pod reading/writing")],
 ["bytes of written files", "values read back"],
 MC, "TLA+ decoder of pods (text, lz4, pxu, base64) deciding what each stored and each written pod stands for; random values in random encodings through the real command line",
 "Sampled values and encodings; arrays up to 9000 items; floats of at most 17 digits.")
prop("C21", "Picotron cart file operations act on exactly the named files",
 "Listing, extracting, inserting, deleting, filtering and merging the files of a Picotron cart act on exactly the files named, keep every other file and its metadata, and never write outside of the folder given for the output.",
 ["inputs", "histories"], "every tree of files and every sequence of operations and patterns",
 "Tests run each operation once.",
 ["picotron_fs.py", "picotron_cart.py", "run_shrinko.py"], [("operations", "picotron_cart.py / run_shrinko.py"), ("paths", "picotron_fs.py")],
 ["files extracted", "carts written"],
 MC, "TLA+ model of a cart as a map from paths to contents; TLC-generated histories replayed through the command line",
 "All single runs, sampled histories of 2 and 3 runs (operation and format each) over random trees.")
prop("C22", "Only the comments asked for are kept",
 "Comments marked to be kept appear in the minified output exactly once and with their text, in a form that is still a comment and swallows no code; all others are removed (unless comments are kept entirely, when all stay). When only layout is minified they also stay in their order and between the same tokens.",
 ["programs", "configurations"], "every placement of kept comments among tokens and shorthands",
 "Tests hold one cart with kept comments.",
 ["pico_tokenize.py", "pico_output.py", "pico_minify.py"], [("comments", "pico_tokenize.py add_comment / pico_output.py")],
 ["comments of the written cart"],
 TV, "TLA+ lexer with comments compared on input and output",
 "Generated programs with comments at every kind of position.")
prop("C23", "Picotron carts survive every conversion between their formats",
 "Converting a Picotron cart between its formats (p64, png, rom, folder) in any order preserves every file with its contents and metadata and the label. (A png holds the label as its picture, with 5 bits per colour, unless its file is kept with --keep-label.)",
 ["inputs", "histories"], "every tree of files, every chain of formats",
 "Tests convert a few stored carts.",
 ["picotron_cart.py", "picotron_fs.py", "media_utils.py"], [("containers", "picotron_cart.py read_cart/write_cart")],
 ["bytes of written files", "carts read back"],
 MC, "TLA+ model of the containers (p64 text, rom and lz4 bytes, png pixels); conversion histories generated by TLC and replayed",
 "All chains of up to 3 formats over sampled carts.")
