"""Which contract modules and bounded drivers decide which property."""
PROPS = {
    "C01": dict(modules=["tex_utils_c01"], bounded=[], level="proof", budget=100, bounded_s=8),
}
PROPS["C02"] = dict(modules=["tex_utils_c02"], bounded=[], level="proof", budget=100, bounded_s=8)
PROPS["C03"] = dict(modules=["tex_utils_c03"], bounded=[], level="proof", budget=100, bounded_s=6)
PROPS["C17"] = dict(modules=["conversions_c17"], bounded=[], level="proof", budget=100, bounded_s=6)
PROPS["C13"] = dict(modules=["ifelse_c13"], bounded=["c13"], level="proof", budget=500, bounded_s=8)
PROPS["C16"] = dict(modules=["encoding_c16"], bounded=["c16"], level="proof", budget=100, bounded_s=6)
PROPS["C04"] = dict(modules=["tabular_c04"], bounded=["c04"], level="proof", budget=200, bounded_s=12)
PROPS["C05"] = dict(modules=["numbering_c05"], bounded=["c05"], level="proof", budget=100, bounded_s=14)
PROPS["C06"] = dict(modules=["organizer_c06"], bounded=["c06"], level="proof", budget=100, bounded_s=14)
PROPS["C11"] = dict(modules=["typed_c11"], bounded=["c11"], level="proof", budget=200, bounded_s=14)
PROPS["C08"] = dict(modules=["archives_c08"], bounded=["c08"], level="proof", budget=100, bounded_s=14)
PROPS["C07"] = dict(modules=["states_c07"], bounded=["c07"], frame=True, level="proof", budget=150, bounded_s=20)
PROPS["C09"] = dict(modules=["macros_c09"], bounded=["c09"], level="proof", budget=200, bounded_s=14)
PROPS["C12"] = dict(modules=["tokens_c12"], bounded=["c12"], level="proof", budget=200, bounded_s=14)
PROPS["C10"] = dict(modules=["handlers_c10"], bounded=["c10"], level="proof", budget=500, bounded_s=20)
PROPS["C14"] = dict(modules=["verbatim_c14"], bounded=["c14"], level="proof", budget=100, bounded_s=14)
PROPS["C15"] = dict(modules=["bib_c15"], bounded=["c15"], level="proof", budget=200, bounded_s=14)
NOTES = {
"C01": "Proved for all texts: count_preceding_backslashes, is_escaped, find_matching_delimiter (block is the shortest prefix in which the unescaped delimiters balance; absent otherwise), extract_nested_content, extract_nested_content_sequence_blocks, check_delimiter_balance, extract_args. The oracle is a recursive depth function over the text (ghost @spec), with induction lemmas. Assumed: delimiters are single characters, different from each other and from the backslash (precondition; every caller uses brackets, braces, parentheses).",
"C02": "Proved: extract_nested_content_pattern, find_matching_env_block (first begin, the end that closes it at level zero, trimmed text between), find_delimiter_end, extract_equation_content (first unescaped closing delimiter outside unescaped braces). Regular expressions are uninterpreted functions with facts from CPython's parse tree; that the begin and end patterns denote LaTeX's markers is covered by the executable contracts.",
"C03": "Proved: strip_latex_comments for every text against a line by line ghost specification. Assumed: str.splitlines/rstrip as axiomatised.",
"C04": "Proved: split_latex_content (both modes), split_rows, split_cells: pieces are exactly those between top-level separators. parse_cell, parse_row, parse_tabular and the parser's table path (wrappers, spans, dropped blank rows): bounded, generated grids against the known cells.",
"C05": "Proved: one step of the numbering for every state of the counters: a numbered equation, table, figure, algorithm, theorem, section of level 0 to 4 (or an appendix) gets exactly the stated number and changes exactly the stated counters, an unnumbered one none (the harness in contracts/numbering.py lets the real TokenBuilder._recursive_organize take one token); organize_content starts with all counters at zero. That the steps are taken in document order at any nesting is the recursion of that function, read off the code, not proved, and covered by the bounded driver (enumerated small trees, random trees, generated documents, one builder for all). Assumed: TokenBuilder._process_tokens touches no counter; fewer than 10^6 sections.",
"C06": "Proved: the step of the organizer, for all levels and token types (harness in contracts/organizer.py around the real TokenBuilder._recursive_organize, _process_tokens and organize_content): where a section, a paragraph, text, a list, a bibliography, an appendix or a token with content goes after up to three open sections or two open paragraphs of arbitrary levels, joining of two adjacent texts, untouched tokens of the caller, a second build of the same tokens. The shape of these documents (number of tokens) is fixed, their levels, types, texts and styles are arbitrary: that longer documents do the same step by step is read off the code (the only state between tokens are the two stacks), not proved; the bounded driver covers it (enumerated small sequences, random ones, generated documents against an independent account of the parent of every token; input compared with a copy).",
"C07": "Proved: for LatexParser, LatexPreprocessor, LatexStyParser, BibParser, CommandManager, IfElseBlockHandler, TokenBuilder and TexReader with everything they hold: made by the real constructors, given arbitrary values in every attribute that any function may write after construction, then cleared by the real clear(), the object graph is the same as a newly made one (classes, values, order of keys, sharing, closures); two new objects share nothing that is written; and for every function of the package the frame condition that it writes no module variable, class attribute, kept default value, shared cache or object with state outside an instance (class-level tables filled once with constants are allowed). What may be written, and through which attribute an object is reached, is read off the source by pyvc/frame.py on every run: by names and aliases, not types, so a write through a computed name or an alias kept in a container would be missed; the bounded driver (histories of documents, instances interleaved, against a freshly forked process) covers that and gives the failing documents. Assumed: logging.getLogger returns one logger per name; the file system does not change in between; callbacks set by the user of the library are not state.",
"C08": "Proved for every archive, every sequence of failures and every option: process_compressed_file, process_compressed, process and ProcessingResult.cleanup against a ghost world with one temporary directory (contracts/archives.py): at most one is made, it is there while the caller works and afterwards exactly when it was to be kept, it is gone after every failure, and everything written while unpacking has a path below it (relative names without .. only). Assumed: the models of the file functions (each may raise any of the listed exceptions at any call; rmtree with ignore_errors removes and does not raise; zip and tar extract write at the path joined from directory and member name), the stated facts about paths, the attributes name and suffix are texts, logging raises nothing. That links and devices among the members are not followed, and that ordinary members arrive with their content: fault enumeration and hostile archives inside a scratch directory (bounded driver).",
"C09": "Proved: substitute_args (one simultaneous pass against a ghost specification of marks, for all bodies and arguments). Reading definitions and calls (process_newcommand, process_newdef, match spans, splicing) is bounded: macros and calls generated as trees with the expected text written out from the tree.",
"C10": "Proved: the acceptance contract (0 when declined, otherwise 1..len) and absence of exceptions for the recognizers and handlers listed below. Assumed: values of unknown type (tokens built by other handlers) absorb operations, calls that are not modelled return arbitrary values, int() of more than 4300 digits is excluded, entries marked `assumes` in the evidence; termination of the loops marked total=False in the evidence is only bounded. NewDefinitionHandler, CommandManager/CommandProcessor, keyval parsing and whole parses (with a time limit): bounded.",
"C11": "Proved: TokenFactory.create, the process methods and model_dump of every token class, on token dictionaries of each of the 37 known types (nested tokens, unknown and dropped types in between, spans, proofs, placeholders, fields) with arbitrary texts, labels, styles, names, numbers and levels: each field declared for the type is on the token and in the JSON data (the harness in contracts/typed.py calls the real code). pydantic enters as a stated model (pyvc/models.py) whose declared fields, types and defaults are read from the classes on every run. Trees of other shapes and depths, json.dumps and the file: bounded, generated token trees against an independent table of classes and fields, generated documents end to end.",
"C12": "Proved: LatexParser.add_token and _handle_label on token lists with an arbitrary beginning and a last token of each shape (21 contracts, the harness in contracts/tokens.py calls the real methods). That the recognizers hand every text to add_token in order is bounded: generated documents with the known words, styles and label owners.",
"C13": "Proved: extract_else_elseif_fi for all texts (branches, conditions and end position against a ghost scan of marker levels). And for every text, every two patterns and names and every nesting pattern: IfElseBlockHandler.handle takes the first pattern that matches, gives the branches and elsif branches of what follows the condition (exchanged when the condition is false), ends just past the matching fi and declines an unclosed one; conditionals with their branches in braces (ifthenelse, @ifundefined, @ifclassloaded, @ifpackageloaded, @ifstar) get their blocks in order (harness in contracts/ifelse.py around the real handle). Conditions made with \\csname, which text a built-in pattern takes as the condition, IfFileExists and the choice of the branch by the preprocessor: bounded, conditionals generated from a known tree.",
"C14": "Proved for all texts: the name chosen for placeholders does not occur in the text; taking out up to three blocks at arbitrary ordered places leaves the text between them as it is, puts a name of its own in every block's place and leads every name to its block in order (more blocks: the same loop body, not covered by the unrolled proof); putting back replaces every name by its block (proved for three names and for none); a verbatim, lstlisting or \\verb token holds the text of its block, title and inline mark, and the block is consumed. The finder of the blocks (find_code_blocks) and LatexPreprocessor._extract_verbatim_blocks end without exception for every text. Assumed: a text containing a + b contains a and b; in the harness the finder is a stand-in that reports ordered blocks. Bounded: which blocks the finder reports, and the whole pipeline: documents with verbatim blocks of arbitrary content among definitions, conditionals, comments and math, generated together with the blocks and words that must come out.",
"C15": "Proved: parse_bibtex_value (a braced value is everything up to the brace that closes it, a quoted one up to the first quote outside braces, two parts joined by # are put together, and for every text the position stays within it), find_closing_quote (for every text), BibTexEntry.from_bibtex, and LatexParser._parse_bib_file on lists of files with two to four entries of arbitrary keys (file order, the first of several entries with the same key, blanks and empty names, a file that cannot be read, the folder of the document), the reader of one file being a stand-in. Finding the entries and fields of a whole source (regular expressions over the text) and the bibitem, bibdiv and compiled formats: bounded, bibliographies generated together with their entries, files combined in directories.",
"C16": "Proved: detect_encoding, read_file and read_tex_file_content return text and raise nothing but FileNotFoundError, for every content of the file (codec behaviour enters as stated contracts: a decoder raises UnicodeDecodeError or LookupError or returns text; errors='replace' never raises for a known codec). That utf-8 content is returned exactly: bounded (files of many encodings and shapes).",
"C17": "Proved: int_to_roman denotes its argument (ghost value function with lemmas per digit place), lower case, canonical below 4000.",
}
for k, v in NOTES.items():
    PROPS[k]["note"] = v
    if not PROPS[k]["modules"]:
        PROPS[k]["technique"] = "bounded stand-in for contracts: executable specification (independent account) checked on the real code"
