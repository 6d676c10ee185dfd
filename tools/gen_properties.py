#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

G = "src/dockerfile_parser.pest"
D = "src/dockerfile_parser.rs"
prop("C01", "Parsing and every query on the result are total",
 "For every text, parsing ends with either a parsed document or an error value. On a parsed document every further operation of the library (listing stages, looking stages up by any string, resolving image variables, computing line-relative positions of reported spans, splicing any reported span with any text, printing documents, stages and errors) also ends normally. Nothing panics, overflows, aborts or loops forever, and the stack needed does not grow with the number of lines, elements or escapes.",
 ["inputs"], "every UTF-8 text, every lookup string, every replacement text",
 "Tests parse about sixty hand-picked documents; a panic (unwrap on an absent child, slice off a char boundary, arithmetic underflow, unbounded recursion) needs an input nobody wrote down.",
 [G, D, "src/util.rs", "src/image.rs", "src/splicer.rs", "src/stage.rs", "src/instructions"],
 [("errors are values: every grammar child is matched or reported", "src/instructions/*.rs from_record"), ("depth limit in variable substitution", "src/image.rs substitute")],
 ["Dockerfile::parse", "Dockerfile::from_reader", "Dockerfile::stages", "Stages::get", "ImageRef::resolve_vars", "Span::relative_span", "Splicer::splice", "Debug/Display impls"])
prop("C02", "Every reported span points at exactly the text it describes",
 "Every span in a parsed document lies inside the text, on character boundaries, inside the span of the element that contains it; spans of sibling elements do not overlap and follow source order. The source text under the span of a leaf (name, value, path, flag, keyword, image, alias, text piece, comment, array element) is either exactly the content reported for it, or the quoted literal whose unescaped value is that content.",
 ["inputs"], "every accepted document and every span reported in it",
 "Tests compare a few dozen literal span numbers in ASCII documents; escapes, multi-byte characters, continuations and comments shift offsets in ways those numbers do not sample.",
 [G, "src/splicer.rs", "src/util.rs", "src/instructions"],
 [("spans taken from the grammar match", "src/splicer.rs Span::from_pair"), ("composed span of a single ENV pair", "src/instructions/env.rs from_single_record")],
 ["all pub span fields", "Instruction::span"])
prop("C03", "No source text is lost or claimed by the wrong instruction",
 "In an accepted document the instructions are reported in source order with disjoint spans, each starting on a line of its own, and everything outside them is whitespace, newlines or whole comment lines. An instruction extends over a newline only when that newline belongs to a line continuation, ends a comment line or blank line following a continuation, or lies inside a quoted string.",
 ["inputs"], "every accepted document",
 "Tests look at documents whose instruction list is known beforehand; that a line is silently dropped or swallowed by its neighbour shows only on line combinations they do not contain (for instance an argument that starts with '#').",
 [G, D], [("document rule: steps separated by newlines", G), ("comments inside continued arguments", G)],
 ["Dockerfile.instructions", "Instruction::span", "Dockerfile.content"])
prop("C04", "The keyword alone, in any letter case, decides the kind",
 "A line whose first word is FROM, ARG, LABEL, RUN, ENTRYPOINT, CMD, COPY or ENV in any mix of letter case, followed by arguments that are well formed for it, is reported as that kind of instruction. Any other alphabetic first word, including one that merely begins with or extends a known keyword, gives a generic instruction carrying the word exactly as written and the rest of the line as its arguments.",
 ["inputs"], "every spelling of every keyword and every unknown word",
 "Tests use one or two spellings per keyword; there are 2^10 for ENTRYPOINT alone, and every unknown word up to any length.",
 [G, D, "src/instructions/misc.rs"], [("case-insensitive keyword match, ordered choice", G), ("rule to variant dispatch", D)],
 ["Instruction variant", "MiscInstruction.instruction", "MiscInstruction.arguments"])
prop("C05", "Shell-form text is what Docker would run",
 "For shell-form RUN, CMD and ENTRYPOINT, for the unquoted value of a single-variable ENV and for the arguments of generic instructions, the displayed string is the argument's source text with each line continuation (backslash, optional blanks, newline) and each comment line standing between continued lines removed, and nothing else changed. The reported pieces are those texts and comments, verbatim and in source order.",
 ["inputs"], "every argument text, every placement of continuations and comment lines, every newline style",
 "A handful of tests cover LF continuations with tidy indentation; CRLF, blanks after the backslash, '#' inside a piece, backslashes that are not continuations and multi-byte text are unsampled.",
 [G, "src/util.rs"], [("breakable text grammar", G), ("component collection", "src/util.rs parse_any_breakable_inner"), ("Display drops comments", "src/util.rs BreakableString::fmt")],
 ["BreakableString.components", "BreakableString Display", "ShellOrExecExpr::as_shell"])
prop("C06", "Exec-form arrays decode element by element",
 "An argument of RUN, CMD or ENTRYPOINT that is a bracketed comma-separated list of quoted strings is reported in exec form with one element per literal, in order, holding the literal's unescaped value; an empty list gives no elements. Blanks, line continuations and comment lines between elements make no difference, nor does one comma directly after the last element. An argument that does not begin with such a list is shell form.",
 ["inputs"], "every array of quoted strings, every escape, every layout",
 "Tests decode four or five arrays with one escape; every escape sequence, quote style and separator layout must decode, or be refused, independently of its neighbours.",
 [G, "src/util.rs", "src/instructions/run.rs", "src/instructions/cmd.rs", "src/instructions/entrypoint.rs"],
 [("array grammar", G), ("element decoding", "src/util.rs parse_string_array")],
 ["StringArray.elements", "StringArray::as_str_vec", "ShellOrExecExpr"])
prop("C07", "FROM reports flags, image, alias and position exactly",
 "A FROM instruction reports each --name=value flag in order with name and value as written (the unescaped content if a value is one quoted word), the image text as written, the alias as written when an AS clause (in any letter case) is present and none otherwise, and its zero-based position among the document's FROM instructions. Its parsed image reference is the one obtained by parsing the image text on its own.",
 ["inputs"], "every FROM line and every number of FROM lines and interleaved instructions",
 "Tests fix a few images and at most one flag; the position counter, repeated flags, unusual aliases and image characters are only sampled.",
 [G, "src/instructions/from.rs", D], [("FROM grammar", G), ("position fix-up after parsing", "src/dockerfile_parser.rs parse_dockerfile")],
 ["FromInstruction fields"])
prop("C08", "Image digests are accepted exactly when well formed",
 "A FROM whose image reference carries an @digest is accepted if and only if the digest is 'sha256:' followed by exactly 64 hexadecimal digits (either case); otherwise the whole document is rejected with an error. When accepted, the digest is reported verbatim.",
 ["inputs"], "every digest text",
 "Tests try one good and a few grossly bad digests; one wrong character among 64, or a length off by one, is a needle they do not look for.",
 ["src/instructions/from.rs", "src/image.rs"], [("digest validation", "src/instructions/from.rs from_record")],
 ["Dockerfile::parse result", "FromInstruction.image_parsed.hash"])
prop("C09", "Image references survive parse and display unchanged",
 "Parsing any text as an image reference and displaying the result gives back exactly that text; parsing the displayed text again gives an equal reference.",
 ["inputs"], "every text",
 "Round-trip tests exist for a dozen well-formed references; the guarantee is for every string, including malformed ones with empty parts or repeated separators.",
 ["src/image.rs"], [("splitting", "src/image.rs ImageRef::parse"), ("reassembly", "src/image.rs Display for ImageRef")],
 ["ImageRef::parse", "ImageRef Display"])
prop("C10", "Image references are split by the Docker rules",
 "The text before the first '/' is the registry exactly when it is 'localhost' or contains '.' or ':'; otherwise there is no registry and nothing is removed. In what remains, the text after the first '@' is the digest and there is then no tag; without '@', the text after the first ':' is the tag; what precedes is the image name. Absent parts are reported as absent, present but empty parts as empty.",
 ["inputs"], "every text", "Twenty literal references cannot cover the interplay of '/', ':', '@', '.' and 'localhost' in every order.",
 ["src/image.rs"], [("registry rule", "src/image.rs is_registry"), ("splitting", "src/image.rs ImageRef::parse")],
 ["ImageRef fields"])
prop("C11", "Image variables resolve from global ARGs, or not at all",
 "Resolving an image reference replaces every $name and ${name} (letters, digits, underscores; longest name) by the value of the document's global ARG of that name, the last one with a value winning, and resolves references inside values the same way up to 16 levels; the result is the reference parsed from the fully substituted text together with exactly the set of names used. It yields nothing if some referenced name has no global value or nesting goes deeper than 16 levels, so cycles never hang; text that is not such a reference is kept as is.",
 ["inputs"], "every set of global ARGs and every image reference",
 "Tests resolve one to three variables; adjacent references, references producing longer or shorter text, diamond and cyclic chains and chains of exactly 16 or 17 levels are unsampled.",
 ["src/image.rs", "src/splicer.rs"], [("recursive substitution", "src/image.rs substitute"), ("global value map", "src/image.rs resolve_vars_with_context")],
 ["ImageRef::resolve_vars", "ImageRef::resolve_vars_with_context"])
prop("C12", "Stages partition the document at its FROM instructions",
 "There is one stage per FROM instruction, in order and numbered from zero; each begins with its FROM and holds, in order, every instruction up to the next FROM, and instructions before the first FROM belong to no stage. A stage's name is its alias in ASCII lower case, or absent. Iterating, indexing and listing stages show the same stages, and stages compare by their number.",
 ["inputs"], "every sequence of instructions", "Two tests with three or four stages; the partition must hold for any number and arrangement of instructions.",
 ["src/stage.rs", D], [("stage construction", "src/stage.rs Stages::new")], ["Stages", "Stage fields", "Dockerfile::iter_stages"])
prop("C13", "A stage's parent and root follow the build graph",
 "A stage's parent is scratch when its image text is 'scratch' in any letter case; otherwise the first earlier stage whose alias equals the image text ignoring ASCII case; otherwise the image reference itself. Its root is found by following parents from stage to stage until one is scratch or an image. Parents print as the image reference, the stage number, or 'scratch'.",
 ["inputs"], "every stage graph", "One test with one chain of depth two; case folding, re-used aliases, forward references and an alias named like an image are not covered.",
 ["src/stage.rs"], [("parent and root resolution", "src/stage.rs Stages::new")], ["Stage.parent", "Stage.root", "StageParent Display"])
prop("C14", "Stages are found by number, by name, and ARGs within them",
 "Looking a stage up by a string finds, when the string is an unsigned integer, exactly the stage with that number, and otherwise the first stage whose alias equals it ignoring ASCII case; lookup by name does the latter for any string; otherwise nothing is found. Asking a stage for a named ARG gives the position within the stage of its first ARG with exactly that name, or nothing.",
 ["inputs"], "every document and every lookup string", "Tests look up three strings in one document, and never ask for an ARG position in a stage with several.",
 ["src/stage.rs"], [("lookup", "src/stage.rs Stages::get / get_by_name"), ("ARG lookup", "src/stage.rs Stage::arg_index")], ["Stages::get", "Stages::get_by_name", "Stage::arg_index"])
prop("C15", "Splicing replaces exactly the chosen spans, in any order",
 "Splicing any set of pairwise disjoint spans reported by a parsed document, each once, in any order and with any replacement texts (longer, shorter or empty), yields the original text with exactly those spans' texts replaced and every other byte unchanged. An enclosing span spliced after spans inside it replaces the whole of the enclosing text as edited so far.",
 ["inputs", "histories"], "every set and order of splices, every replacement text",
 "Tests splice two or three spans in source order; the offset bookkeeping depends on the order and on the sign and size of every earlier change.",
 ["src/splicer.rs"], [("offset bookkeeping", "src/splicer.rs Span::adjust_offsets, Splicer::splice")], ["Splicer::splice", "Splicer.content"])
prop("C16", "Line-relative spans name the right line and column",
 "For every span reported in a document, the line-relative form gives as line number the count of line feeds before the span's start, as start the number of bytes from the beginning of that line, and as end that start plus the span's length.",
 ["inputs"], "every document and span", "One test checks four spans in one document.",
 ["src/splicer.rs"], [("line scan", "src/splicer.rs Span::relative_span")], ["Span::relative_span"])
prop("C17", "ENV yields its variables, in order, with their values",
 "ENV with name=value pairs reports one variable per pair, in order, whose value is the unquoted text as written or, when it is one quoted string, its unescaped content; ENV with a name, blanks and a value reports a single variable whose value is the rest of the instruction as shell-form text, or the unescaped content when that rest is one quoted string (a rest that only begins with a quote may be refused). Malformed pairs never yield variables with altered names or values: the document is rejected or the line is reported as a generic instruction.",
 ["inputs"], "every ENV line", "About ten literal ENV lines; quoting, '=' inside values, escapes, continuations and comments between pairs combine in ways they do not sample.",
 [G, "src/instructions/env.rs"], [("ENV grammar, single form first", G), ("pair decoding", "src/instructions/env.rs")], ["EnvInstruction.vars", "EnvVar"])
prop("C18", "LABEL yields its labels, in order, with names and values",
 "LABEL with name=value pairs reports one label per pair, in order, and LABEL with a name, blanks and a value reports a single label; names and values are the text as written or, when quoted, the unescaped content with line continuations inside the quotes removed, whatever the newline style. Text that fits neither form never yields labels with altered names or values.",
 ["inputs"], "every LABEL line", "About a dozen literal LABEL lines, all with LF newlines.",
 [G, "src/instructions/label.rs", "src/util.rs"], [("LABEL grammar", G), ("quoted decoding", "src/instructions/label.rs Label::from_record"), ("continuation removal", "src/util.rs clean_escaped_breaks")], ["LabelInstruction.labels", "Label"])
prop("C19", "ARG yields its name and optional default",
 "ARG followed by a name reports that name and no value; followed by name=value it reports the value as written or, when quoted, the unescaped content, keeping the difference between no value and an empty quoted one. Names are a letter followed by letters, digits or underscores; anything else is rejected or reported as a generic instruction.",
 ["inputs"], "every ARG line", "Three literal ARG lines.",
 [G, "src/instructions/arg.rs"], [("ARG grammar", G), ("decoding", "src/instructions/arg.rs ArgInstruction::from_record")], ["ArgInstruction fields"])
prop("C20", "COPY yields its flags, sources and destination",
 "COPY reports each leading --name=value flag in order, then the last path as the destination and all paths before it, in order, as sources; names, values and paths are the text as written (unescaped content if it is one quoted word). With fewer than two paths no COPY instruction is reported.",
 ["inputs"], "every COPY line", "Half a dozen literal COPY lines; number of sources, flag-like paths, continuations and comments are only sampled.",
 [G, "src/instructions/copy.rs"], [("COPY grammar", G), ("last path popped as destination", "src/instructions/copy.rs CopyInstruction::from_record")], ["CopyInstruction fields"])
prop("C21", "Layout between instructions and arguments carries no meaning",
 "Indenting or trailing blanks around an instruction line that takes separated arguments, blank lines and comment lines between instructions change no reported name, value, flag, path, image, alias, label, variable or array element. Neither does replacing the blanks between such arguments by other blanks, or by blanks and a line continuation with or without following comment lines or blank lines.",
 ["inputs"], "every document and every insertion of layout", "Tests contain some layout variants but no test relates a document to its re-laid-out twin.",
 [G], [("blank, comment and continuation rules", G)], ["all reported content except spans"])
prop("C22", "LF, CRLF and CR documents mean the same",
 "Writing every newline of a document as CRLF, or as a lone CR, instead of LF neither changes whether it is accepted nor any reported content other than positions, except for newlines that are literally part of a quoted value.",
 ["inputs"], "every document without stray carriage returns", "No test contains a carriage return.",
 [G, "src/util.rs"], [("newline rule", G), ("continuation removal", "src/util.rs clean_escaped_breaks")], ["all reported content except spans"])
prop("C23", "Documents compose line by line",
 "Take two texts without quote characters, the first not ending inside a continued line: joined by a newline they are accepted exactly when both are accepted on their own. The instructions are then those of the first followed by those of the second, identical in content, with only positions, FROM numbering and which ARGs count as global adjusted.",
 ["inputs"], "every pair of documents", "No test relates the parse of a document to the parses of its parts.",
 [G, D], [("document rule", G), ("fold over steps", "src/dockerfile_parser.rs parse_dockerfile")], ["Dockerfile.instructions"])
prop("C24", "All entry points agree and keep the source text",
 "Parsing a text directly, through string conversion, or from a reader that delivers the same bytes in any chunks gives equal documents or an error in each case, and the document keeps exactly the given text. A reader that fails, or whose bytes are not valid UTF-8, gives a read error and never a document.",
 ["inputs", "fault_sequences"], "every text, every chunking, every failing read", "One doc-test compares the three entry points on one text, with an infallible reader.",
 [D], [("reader buffering", "src/dockerfile_parser.rs from_reader")], ["Dockerfile::parse", "Dockerfile::from_reader", "FromStr", "Dockerfile.content", "Error::ReadError"])
prop("C25", "Typed views of an instruction agree with its kind",
 "For every instruction exactly one of the by-reference and by-value typed views is present, the one for its kind, holding the same data; the typed conversions succeed exactly for that kind and otherwise fail with a conversion error naming the wanted type; converting back gives an equal instruction; its span is the span of the typed data. Of the shell and exec views of RUN, CMD and ENTRYPOINT exactly the written form is present.",
 ["inputs"], "every instruction of every kind, every target kind", "Tests convert each kind to itself; nine kinds times nine targets and three conversion styles are not crossed.",
 [D, "src/instructions", "src/util.rs"], [("as_/into_ accessors", D), ("TryFrom impls", "src/instructions/*.rs"), ("span dispatch", D)], ["Instruction::as_*/into_*", "TryFrom<&Instruction>", "Instruction::span", "as_shell/as_exec"])
prop("C26", "Global ARGs are those before the first FROM",
 "The global ARG list holds exactly the ARG instructions that precede the first FROM, in order, whatever other instructions stand between them. Looking up a global ARG by name gives the first of those with exactly that name, and nothing if there is none.",
 ["inputs"], "every document and every name", "Tests look up one name in one document.",
 [D], [("collection while parsing", "src/dockerfile_parser.rs parse_dockerfile"), ("lookup", "src/dockerfile_parser.rs get_global_arg")], ["Dockerfile.global_args", "Dockerfile::get_global_arg"])

prop("C27", "Parsing and queries are pure",
 "What a text parses to, and what every query on the result answers, depends on that text (and the query's own arguments) alone: not on documents parsed before, not on queries made before. Repeating a query gives the same answer, a copy of a document answers like the original, and no query or splice changes the document.",
 ["inputs", "histories"], "every sequence of parses and queries", "Tests run each case once in a fresh state; a remembered answer, a counter or a buffer that survives from one call to the next shows only for certain sequences of texts.",
 [D, "src/image.rs", "src/stage.rs", "src/splicer.rs"], [("no state outside the returned values", "src"), ("the only global is the compiled pattern", "src/image.rs substitute")], ["Dockerfile::parse", "Dockerfile::stages", "Stages::get", "ImageRef::resolve_vars", "Dockerfile::splicer", "Span::relative_span"])
prop("C28", "An edited document means the edit and nothing else",
 "Take an accepted document and replace, through the splicer, the source text of reported values (an image, an alias, a flag value, a variable or label name or value, a path, an array element, a piece of shell text or a comment) by another well-formed value of that place. The new text parses, and to the original document with exactly those values changed (along with the parsed image and the global ARG list derived from them), every other element keeping its content and its position up to the change in length.",
 ["inputs", "histories"], "every document, every choice of values to replace and every replacement word", "Tests splice and compare texts for three documents; none parses the result or compares it with the document it came from.",
 ["src/splicer.rs", G, D, "src/instructions"], [("offset tracking", "src/splicer.rs Splicer::splice"), ("spans of values", "src/instructions/*.rs")], ["Dockerfile::splicer", "Splicer::splice", "Dockerfile::parse"])
prop("C29", "An instruction means the same on its own",
 "The text under an instruction's span, parsed by itself, is accepted and gives exactly one instruction, of the same kind and content (apart from the position among the FROM instructions), with every span shifted by the place where the instruction began.",
 ["inputs"], "every instruction of every accepted document", "No test extracts an instruction's text and parses it again.",
 [G, D, "src/instructions", "src/splicer.rs"], [("instruction rules", G), ("instruction spans", "src/instructions/*.rs")], ["Instruction::span", "Dockerfile::parse"])
prop("C30", "Values built by hand keep what they are given",
 "A breakable string built from pieces and comments keeps them in order with the spans and texts given, displays as its pieces joined without the comments, and its shorthand constructor gives one piece spanning the whole. Spanned strings display and convert to their content, string arrays list their elements' contents in order, spans, labels and variables keep their fields, and an image reference displays as registry/image:tag, or registry/image@digest, with absent parts left out.",
 ["inputs"], "all texts and spans", "Tests use these constructors only to write expected values, so a constructor and a parser wrong in the same way would agree.",
 ["src/util.rs", "src/image.rs", "src/splicer.rs", "src/instructions/label.rs", "src/instructions/env.rs"], [("builder methods", "src/util.rs BreakableString"), ("Display impls", "src/util.rs, src/image.rs")], ["BreakableString::add*", "BreakableString Display", "SpannedString Display/AsRef", "StringArray::as_str_vec", "Span::new", "Label::new", "EnvVar::new", "ImageRef Display"])

prop("C31", "Substitution honours the caller's limit, map and record",
 "The public substitution function replaces every reference $name or ${name} (name: letters, digits, underscores; an unbraced name is taken as long as possible) by the value the caller's map holds for exactly that name, itself substituted first, and leaves all other text alone. It gives nothing if some name is missing from the map or references nest deeper than the caller's limit (0: no reference is allowed; 255: as deep as that), and otherwise always gives a result. On success the caller's set has gained exactly the names used, directly or through other values, and it never loses a name it held before.",
 ["inputs"], "all texts, maps, limits 0 to 255 and prior contents of the record", "Tests call it with limit 16 and an empty record on eight literal texts.",
 ["src/image.rs"], [("recursion and limit", "src/image.rs substitute"), ("splicing the values back", "src/splicer.rs Splicer::splice")], ["substitute"])
prop("C32", "Queries answer for the document as it stands",
 "Documents are plain public data. After the instruction list, the global ARG list or the text of a document has been edited in memory (instructions removed, moved, repeated, inserted from another document, given another name, alias or value), stages and their parents, roots and instructions, lookups by name and number, and ARG positions are those of the current instruction list in its current order; looking up a global ARG searches the current instructions before the current first FROM; image references, whether from the document or built by hand, resolve from their current parts and the current global ARG list; and a new splicer starts from the current text.",
 ["inputs", "histories"], "every document, every sequence of such edits and every query", "No test changes a parsed document and queries it again.",
 ["src/stage.rs", "src/image.rs", D], [("stages built from the instruction list", "src/stage.rs Stages::new"), ("variables from the global list", "src/image.rs resolve_vars_with_context"), ("lookup in the instruction list", "src/dockerfile_parser.rs get_global_arg")], ["Dockerfile fields", "Dockerfile::stages", "Dockerfile::get_global_arg", "ImageRef::resolve_vars", "Dockerfile::splicer"])
prop("C33", "Errors say what went wrong and where",
 "Text that does not fit the grammar gives a parse error whose position lies inside the text on a character boundary, whose line and column are those of that position, and whose display shows the line. That line is where reading stopped: the lines before it, unless continued into it or holding quotes, contain no grammar error of their own, and in a text without quotes, backslashes and carriage returns the line by itself is refused as well. A bad escape gives an unescape error and a bad image digest a generic one with a message; every error displays with the words of its kind, and those with an underlying cause expose it.",
 ["inputs"], "every rejected text", "Tests only check that some texts are rejected, and for bad digests with which kind of error; no test looks at a position.",
 [D, "src/error.rs", "src/instructions/from.rs", "src/util.rs"], [("error context", "src/dockerfile_parser.rs parse_dockerfile"), ("kinds and display", "src/error.rs Error")], ["Error", "Dockerfile::parse"])
prop("C34", "Equality and order mean what they say",
 "Two documents parsed from accepted texts are equal exactly when the texts are equal. Two instructions are equal exactly when they are of the same kind with the same content, the same positions and, for FROM, the same number; equality is symmetric, holds between a value and its copy, and inequality is its opposite. Two image references are equal exactly when registry, image, tag and digest are each equal. Spans are ordered by start and then by end, consistently with equality.",
 ["inputs"], "all pairs of documents, instructions, image references and spans", "Tests use equality to compare results with expected values: an equality that ignores a field makes them pass more easily, never fail.",
 [D, "src/splicer.rs", "src/instructions", "src/util.rs", "src/image.rs"], [("derived and hand-written comparisons", "src")], ["PartialEq/Eq/Ord of Dockerfile, Instruction and its parts, Span"])
prop("C35", "Any span of the text can be replaced and located",
 "A user may build spans of his own. Replacing non-empty spans of an accepted document's text that begin and end on character boundaries, each disjoint from or enclosing those replaced before, in any order and with any replacements, gives the text with exactly those parts replaced; and a span inside the text is located on the line counted by the newline characters before it, with its start relative to that line and its length kept.",
 ["inputs", "histories"], "every document, every such sequence of spans and replacements", "Tests splice and locate only spans reported by the parser, at most three per document.",
 ["src/splicer.rs"], [("offset tracking", "src/splicer.rs Splicer::splice, Span::adjust_offsets"), ("line counting", "src/splicer.rs Span::relative_span")], ["Span::new", "Splicer::splice", "Span::relative_span"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
