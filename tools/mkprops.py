import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=files[0] if len(files)==1 else ', '.join(files)) for m in mech.split(', ')],**({'state':state} if state else {}))))
p("C01","Balanced-delimiter extraction is exact",
 "Extracting a delimited block from a text reports a block only when, after leading whitespace, the text starts with the opening delimiter, and then the block is exactly the shortest prefix whose unescaped delimiters balance (a delimiter after an odd number of backslashes is ordinary text); otherwise it reports absence and consumes nothing. Extracting a sequence of blocks or arguments returns exactly the consecutive blocks in order (at most as many as asked for), with an end position just past the last block returned, and the balance test holds exactly when unescaped delimiters never close below zero and end at zero.",
 ["inputs"],"every text, every pair of distinct single-character delimiters, every block limit",
 "the tests sample a few dozen brace strings; nesting depth, escape runs and truncation points are unbounded",
 ["latex2json/utils/tex_utils.py"],"find_matching_delimiter, extract_nested_content, extract_nested_content_sequence_blocks, extract_args, check_delimiter_balance, count_preceding_backslashes, is_escaped")
p("C02","Environment and math spans pair begin and end correctly",
 "For every text, locating an environment block returns the first begin marker, the end marker that closes it at nesting level zero (same-named nested environments are skipped as wholes), and exactly the text in between (surrounding whitespace trimmed); when no such end exists it reports absence. For inline and display math the closing delimiter is the first one that is unescaped and outside unescaped braces.",
 ["inputs"],"every text, every environment name, every nesting of begin/end markers, every start offset",
 "tests use fixed one- or two-level nestings; mismatches show only for particular orders of begin/end markers, offsets and escapes",
 ["latex2json/utils/tex_utils.py"],"extract_nested_content_pattern, find_matching_env_block, find_delimiter_end, extract_equation_content")
p("C03","Comment stripping removes comments and nothing else",
 "For every text, stripping comments keeps, on each line, exactly the characters before the first percent sign preceded by an even number of backslashes (the whole line when there is none), with trailing whitespace trimmed, and keeps the number and order of lines. Hence escaped percent signs survive, no unescaped percent sign remains, and stripping a second time changes nothing but possibly a final empty line.",
 ["inputs"],"every text",
 "tests sample about ten lines; the property is about every backslash run, every line and every position",
 ["latex2json/utils/tex_utils.py"],"strip_latex_comments, is_escaped, count_preceding_backslashes")
p("C04","Table source is split into rows and cells exactly at top-level separators",
 "A tabular body is split into rows exactly at double backslashes, and a row into cells exactly at ampersands, that are unescaped and outside (unescaped) braces: cells appear in source order with makecell and shortstack wrappers removed, empty cells are kept, blank rows and a first or last row of only empty cells are dropped, and no other text is lost. A cell made of a multicolumn or multirow command yields its last argument as content with the declared column or row span.",
 ["inputs"],"every tabular body: any cell text, brace nesting, escape run, span declaration and number of rows and columns",
 "tests cover a handful of hand-written tables; separator position relative to braces and escapes is unbounded",
 ["latex2json/parser/handlers/tabular.py","latex2json/parser/flatten.py"],"split_latex_content, split_rows, split_cells, parse_tabular")
p("C05","Numbering is sequential in document order with correct hierarchy and resets",
 "In every built document the numbered equations, tables, figures and algorithms (outside table cells) are numbered 1, 2, 3, ... each in document order. A numbered section of level n (1 or deeper) gets the dotted path of its ancestors' counters and its own counter, lower counters restart when a higher section is numbered, parts are counted on their own, and in an appendix section counters restart with a letter (for the first 26) as first component. Theorem-like environments are numbered top-level section (or its letter), dot, counter, the counter restarting at each numbered top-level section; unnumbered items neither receive a number nor advance a counter, and earlier builds have no influence.",
 ["inputs","histories"],"every token sequence of sections (levels 1 to 3), floats, equations, theorems, lists and appendices, nested to any depth, and every earlier build on the same builder",
 "numbering depends on the whole history of preceding tokens; tests fix a few short documents",
 ["latex2json/structure/builder.py"],"_update_*_numbering, _check_update_numbering, _recursive_organize, reset_numbering")
p("C06","Organizing a document keeps every token once, in order, under the right parent",
 "Organizing parsed tokens into the section tree neither loses, duplicates nor reorders any of them: reading the tree in depth-first order gives back the input sequence, except that adjacent plain texts with equal styles are joined (possibly with one space between them, keeping the labels of both). Every token is placed under the closest preceding section or paragraph still open at that point: a section closes all sections of its level or deeper and all paragraphs, a paragraph closes paragraphs of its level or deeper, an appendix closes all of them and takes what follows, a bibliography closes everything and stands at top level. The caller's tokens are not modified.",
 ["inputs","histories"],"every token sequence, any section/paragraph levels and nesting, and repeated builds with the same builder or the same tokens",
 "the placement depends on the whole stack of open sections; tests fix small trees",
 ["latex2json/structure/builder.py"],"_process_tokens, _concat_text_with_same_styles, _manage_stack, _recursive_organize, organize_content, build")
p("C07","No state leaks between documents or between parser instances",
 "After clearing, a parser (or a builder, or a reader between files) gives for any input the same result as a newly created one, whatever it processed before. Two instances never influence each other: what one has processed does not change the other's results.",
 ["histories","inputs"],"every sequence of documents processed before, on the same or on another instance, including macro, theorem, colour, if, column-type, box and citation-alias definitions",
 "tests create a fresh parser per case; leakage shows only for particular pairs of documents",
 ["latex2json/parser/tex_parser.py","latex2json/parser/handlers","latex2json/parser/packages","latex2json/parser/tex_preprocessor.py","latex2json/structure/builder.py","latex2json/tex_reader.py"],"LatexParser.clear and every handler's clear/__init__; class-level attributes")
p("C08","Archive processing stays inside its temp directory and cleans up after itself",
 "Extracting any archive never creates, overwrites or links anything outside the extraction directory, whatever the member names and types are: an unsafe member is not extracted (it is skipped, or the archive is rejected), and ordinary members with plain relative names arrive with their content. A temporary directory made for an archive is removed once processing is over, whether it succeeded or failed, unless it succeeded (or failed only in the caller's own code) and the caller asked to keep it; cleaning up a result removes it, and cleaning up again is harmless.",
 ["inputs","fault_sequences"],"every archive (tar, tar.gz, zip, gz), every member name, every failure point during processing",
 "tests use one well-formed archive; hostile member names and mid-way failures are not exercised",
 ["latex2json/tex_file_extractor.py","latex2json/tex_reader.py"],"TexFileExtractor.process_compressed_file, is path checks, ProcessingResult.cleanup, TexReader.process")
p("C09","Macro expansion substitutes arguments exactly",
 "Expanding a macro defined by \\newcommand, \\renewcommand, \\providecommand, \\DeclareRobustCommand or \\def replaces each parameter mark #1 to #9 of its body (with nested definitions: the marks with the fewest hashes) by the corresponding argument (a missing optional argument by its default) in one simultaneous pass, leaves every other character of the body, escaped hashes and deeper-level (##) marks unchanged, and never rescans substituted argument text for parameter marks; the same holds of the arguments of a \\newenvironment. The call (the control word not continued by a letter and not behind an escaping backslash, its bracketed optional and braced mandatory arguments) is replaced exactly: the text before and after it is unchanged. In math mode an argument or a whole expansion may additionally be put in braces.",
 ["inputs","programs"],"every macro body, every number (0 to 9) and content of arguments, every default, every surrounding text",
 "tests fix a few macros; argument texts containing braces, hashes, backslashes or other arguments' text are unbounded",
 ["latex2json/utils/tex_utils.py","latex2json/parser/handlers/command_processor.py","latex2json/parser/handlers/command_manager.py"],"substitute_args, substitute_patterns, CommandProcessor.handle/expand")
p("C10","Every recognizer consumes a valid, positive amount, so parsing terminates",
 "For every text, each construct recognizer that accepts the text consumes at least one and at most all of its characters, and one that declines consumes none. Hence parsing any text without macro definitions (nested no deeper than the recursion limit of the interpreter allows) ends without an exception, however truncated or unbalanced the text is.",
 ["inputs"],"every text (including truncated, unbalanced and malformed constructs), every recognizer",
 "tests use well-formed constructs; a negative, zero or too large length appears only on malformed text and shows as a hang, a crash or duplicated or lost text",
 ["latex2json/parser/tex_parser.py","latex2json/parser/handlers","latex2json/parser/packages"],"handle()/can_handle() of every handler, LatexParser.parse main loop, _check_handlers, _check_unknown_command")
p("C11","Typed output and JSON keep every recognized token's data",
 "Building typed output keeps each token of a known type in place with its type-specific class, content, labels, styles, numbering and the other fields declared for its type unchanged at any nesting depth; a token of an unknown type (and a date, and anything but an entry in a bibliography) is dropped without affecting the others or failing the build (in a table, a lone cell token of unknown type leaves an empty cell). The JSON produced for any token tree, and the saved file, is valid JSON that carries the same data.",
 ["inputs"],"every tree of token dictionaries over known and unknown types, at any depth",
 "tests convert a few flat tokens; the loss of a field or a failure shows only for particular type/position combinations",
 ["latex2json/structure/token_factory.py","latex2json/structure/tokens","latex2json/tex_reader.py"],"TokenFactory.create, BaseToken.process and its overrides, model_dump/to_json")
p("C12","Plain text survives parsing in order and labels attach exactly once",
 "Plain text between constructs appears in the parser's output in source order, exactly once (only whitespace between tokens is not significant, but two words are never glued together): consecutive unstyled texts of one source text are joined into one token, styled text is never joined with text of other style, and nothing is dropped. Each label is attached exactly once: to the environment, list item, section or caption being processed (a section stays current until the next one begins, a caption until its environment ends, a footnote only inside it), otherwise to the preceding token, otherwise as a token of its own; a label in the text of a table cell goes to the table.",
 ["inputs"],"every token sequence fed to the token accumulator and every text interleaving prose, groups, formatting, environments and labels (labels inside one-line boxes, fractions and algorithm bodies, which are kept literally, aside)",
 "tests check fixed documents; the merge depends on the previous token and on the style of both",
 ["latex2json/parser/tex_parser.py"],"LatexParser.add_token, _handle_label, _process_token, parse")
p("C13","Conditionals are split at their own else and fi",
 "For every conditional the true branch is the text up to the first else, elsif or fi of the same nesting level, the else branch is the text from that else to the matching fi, each elsif branch keeps its own condition and text, and the end position is just past the matching fi; nested conditionals stay whole inside their branch. A conditional without a matching fi is reported as unclosed, and for a literally false condition the branches are exchanged so that the text after else is the one kept.",
 ["inputs"],"every nesting of conditionals and every branch text",
 "tests fix shallow nestings; the pairing depends on the whole marker sequence",
 ["latex2json/parser/handlers/if_else_statements.py"],"extract_else_elseif_fi, IfElseBlockHandler.handle")
p("C14","Verbatim content is protected from preprocessing and expansion",
 "Text inside verbatim-like blocks (verbatim and lstlisting environments, inline verb) that is not itself in a comment, a discarded branch or a definition comes out of preprocessing character for character as it went in, at the same place, whatever commands, definitions, comments or conditionals surround it; between plain text it reaches the parser's code token unchanged (up to surrounding whitespace). No placeholder is ever visible in the output or in the definitions found: protecting and restoring is lossless for every text and every number of blocks.",
 ["inputs"],"every text containing any number of verbatim blocks with any content, and every set of definitions around them",
 "tests use one or two blocks; placeholder collisions and ordering need many blocks or particular contents",
 ["latex2json/parser/tex_preprocessor.py","latex2json/parser/handlers/code_block.py"],"LatexPreprocessor.preprocess, _extract_verbatim_blocks, restore_placeholder_blocks, _process_definitions_and_expand")
p("C15","Bibliography entries are all kept, in order, once per citation key",
 "Every well-formed entry of a bibliography (bibitem list with some text per item, BibTeX source, or AMS bibdiv with at least one field per entry) yields exactly one entry with its citation key, its type and its fields' values (for a bibitem its text, without newblock marks), in source order, whatever braces, quotes or nesting the values contain (whitespace runs, and in bibdiv braces that only group, are not significant; repeated bibdiv fields are joined). When bibliography files are combined, entries are kept in file order and of several entries with the same citation key exactly the first is kept.",
 ["inputs"],"every list of entries, every key and field value with balanced braces, every combination of files with repeated keys",
 "tests parse a few fixed files; dropped, merged or reordered entries depend on neighbours and on value contents",
 ["latex2json/parser/bib","latex2json/parser/tex_parser.py"],"BibTexParser.parse, BibItemParser, BibDivParser, LatexParser._parse_bib_file")
p("C16","Any existing file can be read",
 "Reading any regular file, whatever its bytes, size or detected encoding, returns text and never raises a decoding or unknown-encoding error; pure ASCII and valid UTF-8 content is returned exactly (up to line ends and a byte order mark). A missing file or a directory is reported as not found.",
 ["inputs","fault_sequences"],"every byte content and every answer of the encoding detector",
 "tests read well-encoded samples only; the failing detector answers depend on byte content past the sampled prefix",
 ["latex2json/utils/encoding.py","latex2json/utils/tex_utils.py"],"detect_encoding, read_file, read_tex_file_content")
p("C17","Roman numeral conversion denotes its argument canonically",
 "For every non-negative number the produced roman numeral is lower case, denotes exactly that number, and is the canonical (shortest, subtractive) form below 4000.",
 ["inputs"],"every non-negative integer",
 "tests try a few numbers; carries between digit places are not covered",
 ["latex2json/utils/conversions.py"],"int_to_roman")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
