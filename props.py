"""What decides each property: proof files, the functions in them that carry it, the search."""
T = "contract-based deductive verification (Verus/Z3) of the code extracted from /repo"
TB = "Trusted: the contracts put on std (listed in the evidence, scanned mechanically), vx's extraction rewrites, Verus and Z3. "
CSS_A = ["the text is shorter than 2^31 - 1 characters (the parenthesis counter of clean_tokens is an i32)", "v.retain(|_| b.next().unwrap()) keeps exactly the elements whose flag in b is set", "char_indices().peekable() yields the characters with their byte offsets", "&s[a..b] gives the bytes a..b (its bounds are proved)", "derived PartialEq of Token is structural equality", "write!(f, ..) calls the arguments' fmt in order and stops at the first error"]
JS_A = ["derived PartialEq of Token is structural equality", "derived Clone of Token gives an equal token"]
LEX_A = JS_A + ["the text is shorter than 2^31 - 1 characters (the brace counter of get_backtick_string is an i32)", "char_indices() yields the characters with their byte offsets, and a clone of it goes on from the same place", "&s[a..b] gives the bytes a..b (its bounds are proved)", "usize::from_str accepts only digits after at most one plus sign and gives their value", "f64::from_str is a function of the text"]
PROPS = {
    "S01": {
        "specs": ["js"], "level": "proof", "technique": T,
        "panic_only": r"(^|::)(clean_\w+|get_next\w*|need_blank|needs_statement|fmt|write|is_\w+|eq_\w+|requires_before|get_required|try_from|prop_pieces|prop_words|prop_clean\w*)$",
        "level_note": "Every function from js::minify()/simple_minify() to the printing of the result is under contract: no panic, no overflow, no slice off a character boundary, termination, and an error only where templates are nested more than 1000 deep (prop_deep: such a text has more than 1001 backticks). The stack that 1000 nested calls need is not modelled. " + TB,
        "bounded": "nothing",
        "assumptions": LEX_A + ["write!(f, ..) calls the arguments' fmt in order and stops at the first error", "the stack suffices for 1000 nested calls of get_backtick_string"],
    },
    "S02": {
        "specs": ["js"], "level": "proof", "technique": T,
        "fns": {"js": r"^(?!.*((^|::)(clean_\w+|get_next\w*|need_blank|needs_statement|fmt|write|requires_before|get_required|prop_clean\w*)$|cspec::))"},
        "level_note": "tokenize() and every function it calls are proved to give tokens that are consecutive pieces of the source (lexed); prop_pieces and prop_words unfold that into the statement. " + TB,
        "bounded": "nothing",
        "assumptions": LEX_A,
    },
    "J01": {
        "specs": ["json"], "level": "proof", "technique": T,
        "level_note": "Every function from minify() to to_string()/write() is under contract and proved equal to the specification function jmin for all inputs; idempotence, context preservation and absence of leftover whitespace are lemmas over jmin. " + TB,
        "bounded": "nothing (the proof covers the whole path from minify() to to_string())",
        "assumptions": ["derived Clone of JsonMultiFilter returns an equal value", "write!(w, \"{c}\") of a char writes exactly that character or fails", "a function value in the predicate field behaves as the function it names (defunctionalised)"],
    },
    "J02": {
        "specs": ["jread"], "level": "proof", "technique": T,
        "level_note": "Every function from minify_from_read() to JsonRead::read() is under contract; the contract of read() relates the bytes delivered so far to what minifying the decoded source gives, for every source that keeps Read's contract, every buffer and every error; prop_read_all and lemma_done derive the property from the contracts. Termination of a read on a source that answers Interrupted for ever is not claimed. " + TB,
        "bounded": "nothing (the proof covers the whole path from minify_from_read() to read())",
        "assumptions": ["the source keeps the contract of std::io::Read (returns at most the buffer's length, 0 only at its end)", "std::str::from_utf8 accepts exactly valid_utf8 and gives its decoding", "char::to_string().into_bytes().into_iter() gives the UTF-8 encoding of the character", "a function value in the predicate field behaves as the function it names (defunctionalised)", "exec_allows_no_decreases_clause on the loops that wait for the source: partial correctness there"],
    },
    "C01": {
        "specs": ["css"], "level": "proof", "technique": T,
        "panic_only": r"(^|::)(clean_tokens|starts_simple_selector|ends_simple_selector|fmt|write|is_\w+|prop_c02|prop_c03)$",
        "level_note": "Every function from css::minify() to the printing of the result is under contract: no panic, no overflow, termination, and an error exactly where the specification css_tokens says malformed, for all texts below 2^31 characters. " + TB,
        "bounded": "nothing",
        "assumptions": CSS_A,
    },
    "C02": {
        "specs": ["css"], "level": "proof", "technique": T,
        "level_note": "tokenize() is proved to give css_tokens of the text, clean_tokens() to remove separators only, the Display implementations to print each token's text in order; lemmas derive that the output is the input's text with only white space between tokens changed. " + TB,
        "bounded": "nothing",
        "assumptions": CSS_A,
    },
    "C03": {
        "specs": ["css"], "level": "proof", "technique": T,
        "level_note": "clean_tokens() is proved to keep every separator that req (the specification of which white space has a meaning) names and to add none; lemma_shown carries that to the printed text. " + TB,
        "bounded": "nothing",
        "assumptions": CSS_A,
    },
    "S03": {
        "specs": ["jsclean"], "level": "proof", "technique": T,
        "level_note": "clean_tokens, clean_tokens_except, clean_token, clean_token_except and the helpers they use are proved equal to specification functions (cl, cle) for every token list and every pure predicate; prop_clean and prop_clean_except derive from those which tokens are left and which blanks are put in. " + TB,
        "bounded": "nothing",
        "assumptions": JS_A + ["the predicate is total and a function of the token", "Vec's IntoIter yields the elements in order"],
    },
    "S04": {
        "specs": ["jsprint"], "level": "proof", "technique": T,
        "level_note": "The Display implementations of every kind of token, Tokens::fmt and Tokens::write are proved to write exactly the specification text (printed); prop_printed and prop_apart derive the statement from it and from the contracts of the cleaning functions, which are verified in the same run. " + TB,
        "bounded": "nothing",
        "assumptions": JS_A + ["write!(f, ..) calls the arguments' fmt in order and stops at the first error", "Display of usize writes its decimal digits", "the predicate is total and a function of the token"],
    },
    "W01": {
        "specs": ["json", "css", "js"], "level": "proof", "technique": T,
        "fns": {x: r"(^|::)(((Minified|Tokens|JsonMultiFilter)::(write|fmt))|prop_to_string|prop_write|prop_written|lemma_wr\w+|lemma_parts|lemma_rest|lemma_dtext\w*|(VIter|VRange)::next|disp::lemma_\w+)$" for x in ("json", "css", "js")},
        "level_note": "write() and Display::fmt of the JSON, CSS and JS results, and of everything they print, are under one contract (wrote): on success exactly the result's text is added to what the writer had, and on an error a prefix of it; both are proved against the same text. A failed obligation of a single token's Display (which both paths share) leaves W01 to the search. " + TB,
        "bounded": "nothing",
        "assumptions": ["a writer's write_all/write_fmt adds the text's bytes, or some of its first bytes and returns an error (std's write_all over a writer that keeps the contract of std::io::Write)", "write!(f, ..) calls the arguments' fmt in order and stops at the first error", "write!(w, \"{c}\") of a char writes exactly that character or fails", "derived Clone of JsonMultiFilter returns an equal value", "Display of usize writes its decimal digits"],
    },
    "L01": {
        "specs": ["cli"], "level": "proof", "technique": T, "budget": 45,
        "level_note": "get_all_data, FileType::from, FileType::as_str, write_out_file and Cli::init are proved, over an abstract file system with trusted contracts for std::fs and std::path, to write exactly what the minifier makes of the input to the file that the options name, or to leave every existing file as it was, and to end with status 0 exactly if every input was handled. The search runs the real command in scratch directories. What the minifiers make of a text is an uninterpreted function here (C01, C02, S01, J01 are about it). " + TB,
        "bounded": "clap's parsing of the command line (only run by the search)",
        "assumptions": ["std::fs and std::path as stated in proofs/cli.vs: an operation that fails leaves existing files alone, except a failed write", "clap gives the arguments of the command line; a -t value is never Unknown", "println!/eprintln! do not fail (a closed standard output)", "nobody else changes the files while the command runs", "derived PartialEq of FileType is structural equality", "format! concatenates the Display texts of its arguments"],
    },
    "S05": {
        "specs": ["jsagg"], "level": "proof", "technique": T,
        "fns": {"jsagg": r"^(?!.*(^|::)(VariableNameGenerator|get_current_name|get_prefix)).*(aspec|astd|small|help|alem|agg|arlem|arra|arrb|aggregate_\w+|get_used_names|get_variables_name|is_whole_value|is_strings_array|get_array|get_variable_name_and_value_positions)"},
        "not_mine": r"arithmetic|division|decreases|termination",
        "level_note": "aggregate_strings and aggregate_strings_into_array in all their variants, and every function they call (get_used_names, get_variables_name, is_whole_value, is_strings_array, get_array, get_variable_name_and_value_positions, VariableNameGenerator), are under contract: aggregated() and arrayed() in proofs/js_aspec.vs state what may stand at every place of the result, for every token list, filter and separation token. That strings are quoted is a precondition, proved for everything tokenize() and clean_tokens() give (prop_quoted, prop_quoted_clean, in S02's run). " + TB,
        "bounded": "nothing",
        "assumptions": JS_A + ["64-bit machine; fewer than 2^31 tokens, and texts and the array's name below 2^31 bytes (the products of the size estimate)", "HashMap and HashSet behave as finite maps and sets whose keys are compared by their text (derived Hash and Eq of Token agree); iteration gives every entry once, in any order", "sort_unstable_by gives a permutation (in the array: by descending number)", "str::split with a char predicate gives at least every maximal run of the other characters", "str::starts_with, str::contains and usize::to_string as documented", "char::is_alphanumeric is a function of the character", "Display of a token is its text (proved under S04)", "the filter is total", "strings begin and end with a quote of one byte (proved for tokenize and clean_tokens under S02)"],
    },
    "S06": {
        "specs": ["jsname"], "level": "proof", "technique": T,
        "level_note": "Every function of VariableNameGenerator that makes names is proved against bijective base-62 numbering: next() adds one to the number of the name, so names never repeat (prop_steps, prop_distinct). " + TB,
        "bounded": "nothing",
        "assumptions": ["format! concatenates the Display texts of its arguments"],
    },
    "S07": {
        "specs": ["jshelp"], "level": "proof", "technique": T,
        "level_note": "replace_tokens_with, replace_token_with, get_variable_name_and_value_positions and get_array are proved against contracts that state the positions they may report; prop_found unfolds them. " + TB,
        "bounded": "nothing",
        "assumptions": JS_A + ["iter_mut() yields the elements in order"],
    },
    "H01": {
        "specs": ["html"], "level": "proof", "technique": T, "budget": 40,
        "level_note": "minify() and the five functions it chains (remove_comments, condense, clean_unneeded_tags, condense_whitespace, unquote_attributes) are under contract for all texts: remove_comments is proved equal to the specification function strip, the others to make only changes of the kind that the statement lists. vx reads every regular expression of the current source into a value of the proof (proofs/html_spec.vs, lang), so that the obligations are about the very expressions in the code; that the regex crate finds matches of that language, the shortest at its place where the expression is lazy, and for remove_comments none overlooked, is the assumed contract of a dependency. " + TB,
        "bounded": "nothing",
        "assumptions": ["regex crate: replace_all/find_iter find, from left to right and without overlap, pieces of the text that are in the language of the expression, and overlook no place where one starts (for expressions that do not match the empty text); with a lazy repetition as its only freedom the match is the shortest at its place; capture groups that take part in every match give their part of it; the literals are accepted by Regex::new", "vx's reading of a regular expression (literals, classes, \\s \\w \\d ., groups, alternatives, * + ? {n,} greedy and lazy) and its rewriting of replace_all with a closure into the loop over the matches are right", "\\s is char::is_whitespace; \\w and \\d are as in Unicode, for ASCII spelled out; no white space is \\w", "str::replace, find, contains, starts_with, trim, trim_start as documented; to_lowercase maps ASCII characters one by one", "format! concatenates the Display texts of its arguments"],
    },
}
NA = {}
