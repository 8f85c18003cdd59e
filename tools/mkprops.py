#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def p(id, title, statement, over, text, why, files, mech, level, technique, note, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                level=level, technique=technique, note=note, observe=observe or ["the bytes delivered to the destination", "the returned errors"], state=state)

M, E, F = "model_checking", "exploration", "fault_enumeration"
SEQ = "stateless model checking of the real Writer: every call sequence up to a depth, in lockstep with a reference model"
SEQN = "Exhaustive within the stated depth and alphabet on the real code; trusts the reference model, the harness' own XML reader (cross-checked with encoding/xml) and that longer sequences/other values behave like the enumerated ones."
P = [
p("C01", "Output is well-formed XML after every sequence of calls",
  "Whatever public calls are made in whatever order, as long as every call either succeeds or is refused and the writer is then closed and flushed, the delivered output is well-formed XML. A call that would make the document malformed is refused with an error instead.",
  ["histories", "programs"], "all sequences of public calls (start, write, block, end, next, end-all, flush) with checked values, from the initial state and from inside a document, element, DTD, comment or CDATA section",
  "Tests write about forty fixed documents; malformed output needs particular orders of calls (attribute after content, end after refused start, content split over calls) which no test walks through.",
  ["writer.go", "node.go", "elem.go", "nodes.go", "dtd.go", "attr.go"],
  [("parent check before each node", "writer.go checkParent/writeBeginNext"), ("node state machine open/opened/ended", "node.go"), ("escaping and value checks", "printer.go, check.go")],
  M, SEQ, SEQN),
p("C02", "A reader sees exactly the nodes that were written, in order",
  "Parsing the output yields exactly the nodes, names, attributes and content that the accepted calls described: nothing is lost, duplicated, reordered or moved to another parent, and refused calls leave no trace.",
  ["histories", "programs"], "all sequences of accepted and refused calls over an alphabet that covers every node kind and API style",
  "Tests compare a few literal outputs; loss or misplacement appears only for certain predecessor/successor combinations of calls.",
  ["writer.go", "node.go", "elem.go", "nodes.go", "dtd.go"],
  [("begin/end bookkeeping of the node stack", "writer.go pushBegin/pushEnd/pop"), ("lazy opening of the parent's start tag", "writer.go writeBeginNext")],
  M, SEQ, SEQN),
p("C03", "Text and attribute values survive a round trip",
  "For every string of legal XML characters, written as text, attribute value or namespace URI through any API and in any number of pieces, a conforming reader gets exactly that string back, including tabs, line breaks and carriage returns. Nothing in the value can be taken for markup.",
  ["inputs"], "all Unicode code points in every position, all short strings over an alphabet of special characters and character classes, every way of splitting them into calls, at all API sites, at every buffer boundary",
  "The tests sample a few escapes; whether every character and combination is escaped right is a statement over all strings.",
  ["printer.go", "nodes.go", "attr.go", "elem.go"],
  [("text escaping", "printer.go EscapeString"), ("attribute escaping", "printer.go EscapeAttrString"), ("attribute printing", "printer.go printAttr")],
  E, "exhaustive bounded exploration of the real escaper (all code points, all strings up to a length, all splits), round trip through a conforming reader",
  "Complete for single code points at every site; strings are bounded in length over a boundary alphabet; trusts the harness reader's attribute-value and line-end normalisation."),
p("C04", "Comment, CDATA and PI content is written unchanged or refused",
  "Content of comments, CDATA sections and processing instructions is accepted exactly when it can legally appear there, and then appears unchanged; otherwise it is refused. This holds however the content is divided over calls.",
  ["inputs", "histories"], "all short strings over the delimiters' characters and every way of cutting them into chunks, with and without strict character checking, in every API style; all code points one by one",
  "Tests cover one or two forbidden substrings in one call; forbidden sequences that straddle calls, or stand at the very end, are not sampled.",
  ["nodes.go", "check.go", "writer.go"],
  [("comment content checks", "nodes.go CommentContent.write, Comment.end"), ("CDATA content checks", "nodes.go CDataContent.write"), ("PI checks", "nodes.go PI.write")],
  M, "exhaustive enumeration of content strings x all chunkings on the real code against a reference automaton for the XML grammar",
  "Complete within the string-length bound over the delimiter alphabet; single code points complete."),
p("C05", "Nodes are accepted only where XML allows them, with no trace if refused",
  "A node is accepted in a given context exactly when its kind may stand there (declarations in a DTD, attributes in an open start tag, content in elements, and so on). A refused call returns an error and changes nothing, whatever it was refused for - its place, its name, its attributes, its identifiers or its content: the document continues exactly as if it had not been made. (Only calls that write several nodes, and elements whose nested content is refused, may have been written up to the refused node.)",
  ["histories", "programs"], "every reachable context of the writer (up to a number of open nodes) x every node kind and API style, followed by every further call",
  "One test tries a handful of wrong parents; the context-by-kind matrix in all node states, and the absence of side effects, is not covered.",
  ["writer.go", "nodekind.go", "node.go", "nodes.go", "dtd.go", "elem.go", "attr.go"],
  [("allowed-parent sets", "nodes.go, dtd.go, elem.go, attr.go *Parents"), ("parent check", "writer.go checkParent")],
  M, "explicit-state search over the model's reachable control states, each replayed on the real Writer with every call and every continuation", SEQN),
p("C06", "Ending calls match the open node; a refused one changes nothing",
  "A call that ends a node of a given kind or name succeeds exactly when the innermost open node is of that kind and name, and ends precisely that node. Otherwise it returns an error and has no effect on the document.",
  ["histories", "programs"], "every reachable context x every ending call with every kind and name variation",
  "Tests try nine wrong enders; names that share prefixes, and the state after a refused end, are not covered.",
  ["writer.go", "elem.go", "node.go"],
  [("kind and name matching", "writer.go pop, End, EndElemFull")],
  M, "explicit-state search over control states, every ending call replayed on the real Writer, compared with the state without the call", SEQN),
p("C07", "Scope enders close exactly the nodes opened in the scope",
  "Ending everything, ending the document, or ending down to a recorded depth closes exactly the nodes opened above that point, innermost first, and the reported depth always equals the number of open nodes. When there is nothing to end, the calls do what is documented and leave enclosing nodes alone; a scope ender that is refused (wrong kind or name at the recorded depth, no such depth, no document to end) closes nothing.",
  ["histories"], "every reachable context x every recorded depth x every scope ender, alone and chained, at nesting depths across the stack's growth boundaries",
  "Tests use each ender once or twice on one document.",
  ["writer.go"],
  [("depth bookkeeping", "writer.go Depth, EndToDepth, EndAll, EndDoc, EndAllFlush")],
  M, "explicit-state search plus equivalence of each scope ender with the corresponding single ends on the real Writer", SEQN),
p("C08", "Documents of any depth and width are written correctly",
  "The guarantees do not depend on how deeply nodes are nested or how many children, attributes or list items they have: every depth and width gives the same structure, with every node closed exactly once.",
  ["inputs", "histories"], "every depth and every width from 0 to a bound beyond several growths of internal storage, built in every API style, and returning from every depth to every shallower one",
  "The deepest test document has a few levels; errors at growth boundaries need depths the tests never reach.",
  ["writer.go", "elem.go", "node.go"],
  [("node stack growth", "writer.go pushBegin"), ("recursive structured content", "elem.go opened")],
  M, "exhaustive enumeration of all depths/widths up to a bound on the real Writer in lockstep with the reference model",
  "Complete up to the bound, one dimension at a time; beyond it by uniformity."),
p("C09", "The structured and the procedural API write the same document",
  "A node written as one structured value, as a block, with named start/end calls, or with a mixture of these at different levels produces byte-identical output, and is accepted or refused alike.",
  ["programs", "inputs"], "all document trees up to a size over all node kinds with every combination of API styles per node; lists of nodes passed to one call versus single calls",
  "Tests check a handful of examples per style and never compare styles systematically.",
  ["writer.go", "elem.go", "nodes.go", "dtd.go"],
  [("structured content", "elem.go opened, Doc/DTD content"), ("Block/Write/Start", "writer.go Block, Write, Start")],
  E, "exhaustive enumeration of all trees up to a size x all per-node API-style assignments, differential on the real code",
  "Complete within the size bound; differential oracle plus the reference reader, so an error common to all styles is left to C01/C02."),
p("C10", "Namespace declarations match the prefixes and URIs that were given",
  "Every element or attribute given a namespace URI is declared so that a namespace-aware reader resolves it to that URI; no needed declaration is missing, none is duplicated on one element, and a binding that cannot be expressed is refused.",
  ["inputs", "histories"], "all combinations of prefixes, URIs and names for an element, several attributes, nested elements and attribute order, procedural and structured",
  "Tests sample a few prefix/URI pairs; clashes and orderings are not covered.",
  ["elem.go", "attr.go", "writer.go"],
  [("declaration bookkeeping", "attr.go write, elem.go open/opened")],
  M, "exhaustive enumeration of prefix/URI/name combinations in call sequences on the real Writer against a namespace-resolving reference", SEQN),
p("C11", "Typed attribute values denote exactly the value given",
  "Setting an attribute from a boolean, integer, unsigned integer or floating-point number produces a lexical form that parses back to exactly that value, changes nothing else of the attribute, and is written unaltered.",
  ["inputs"], "all values of the 8/16-bit types and booleans; for wider types every power-of-two and boundary value; for floats every exponent with boundary mantissas, and special values",
  "Tests check a few numbers.",
  ["attr.go"],
  [("typed setters", "attr.go Bool ... Float64")],
  E, "exhaustive enumeration of small domains and boundary lattices of the large ones on the real code",
  "Complete for bool, 8- and 16-bit types; lattice of every bit/exponent boundary for 32/64-bit types; trusts strconv parsing."),
p("C12", "Names are accepted exactly when they are legal XML names",
  "Every place that takes a name accepts it if and only if it is a legal XML name, and writes it unchanged.",
  ["inputs"], "every Unicode code point in first and later position and all short strings over a boundary alphabet at every place that takes a name",
  "Ten examples are tested out of 1.1 million code points times positions and places.",
  ["check.go", "tables_gen.go", "gentables.go", "elem.go", "attr.go", "dtd.go", "nodes.go"],
  [("name check", "check.go CheckName, tables_gen.go")],
  E, "exhaustive enumeration of all code points x position x API site on the real code against the XML 1.0 productions",
  "Complete for single code points in first/later position at the checker; at the API sites complete over class boundaries. Two known findings are listed (missing legal ranges; empty PI target)."),
p("C13", "Character, encoding-name and public-ID checks follow the XML grammar",
  "The exported checks accept a string exactly when XML 1.0 allows it: legal characters (and, when strict, no discouraged ones), well-formed UTF-8, legal encoding names and legal public identifiers. They never panic.",
  ["inputs"], "every code point at the start, middle and end; every byte string up to a length; all short strings over a boundary alphabet",
  "Tests try a dozen strings.",
  ["check.go", "printer.go"],
  [("checks", "check.go CheckChars, CheckEncoding, CheckPubID"), ("char range", "printer.go isInCharacterRange")],
  E, "exhaustive enumeration of all code points and all short byte strings on the real functions against the productions",
  "Complete for single code points and for byte strings up to the bound."),
p("C14", "DTD declarations are written grammatically with all their parts",
  "Every document type, element, attribute-list, entity and notation declaration that is accepted is grammatical and contains exactly the given names, identifiers, types, defaults and values, with quoting that lets a reader recover them; what cannot be expressed is refused.",
  ["inputs", "histories"], "every combination of the fields of each declaration over small value sets, all short strings over a quoting alphabet in every quoted field, and all sequences of declarations up to a depth",
  "Tests show about thirty declarations; the field combinations and quoting edge cases are a product space.",
  ["dtd.go", "printer.go", "check.go"],
  [("declarations", "dtd.go"), ("external IDs, entity values", "printer.go writeExternalID/writeSystemID/writeEntityValue/writePublicID")],
  M, "exhaustive product of declaration fields and declaration sequences on the real Writer against a reference DTD grammar reader", SEQN),
p("C15", "Buffering never changes the output; a flush delivers everything so far",
  "The delivered bytes do not depend on the buffer size or on when the caller flushes. After a flush everything written so far has been delivered, before it the delivered bytes are always a prefix of the document, and only a bounded amount is held back.",
  ["configurations", "histories"], "all buffer sizes from none to beyond the document x all placements of flushes in all short call sequences and in rich documents",
  "All tests use one or two buffer sizes and flush once at the end.",
  ["writer.go", "printer.go"],
  [("buffered printer", "writer.go newWriter, Flush; printer.go")],
  M, "exhaustive enumeration of call sequences x buffer sizes x flush placements on the real Writer",
  "Complete within depth and size bounds; the oracle is the writer's own output with an unbounded buffer plus the calls' values."),
p("C16", "Every output encoding carries the same document",
  "Written in any supported encoding, the output decoded with that encoding and parsed is the same document as in UTF-8, characters the encoding lacks become character references where XML allows them, and the XML declaration names the encoding.",
  ["inputs", "configurations"], "every code point x every stateless encoding in text and attributes, every alignment to the buffer, all short call sequences in every encoding",
  "Three encodings are tested with short strings.",
  ["writer.go", "nodes.go", "printer.go"],
  [("encoder set-up", "writer.go OpenEncoding"), ("declaration", "nodes.go Doc.open")],
  M, "exhaustive enumeration of code points x encodings, alignments, and call sequences on the real Writer, decoded with the encoding's own decoder",
  "Complete for code points that the encoding library round-trips; stateful encodings (ISO-2022-JP, HZ-GB2312) are out of scope. Known findings: unencodable characters outside text/attributes; EBCDIC references."),
p("C17", "Indentation only adds white space between markup, and lays it out by depth",
  "With the standard indenter, a reader sees the same document except for white space between pieces of markup: text, mixed content, attribute values, comments, CDATA and PIs are untouched. Nodes that stand alone are put on lines of their own, indented by their depth with the configured string, and a finished document ends with a line break.",
  ["histories", "configurations", "inputs"], "all call sequences up to a depth, all text placements in mixed content, indent strings, nesting depths beyond the pre-computed indents",
  "Tests compare a few literal indented documents.",
  ["indenter.go", "writer.go", "node.go"],
  [("standard indenter", "indenter.go Indent, Wrap"), ("indent events", "writer.go writeIndent, node.go")],
  M, "stateless model checking of call sequences with the standard indenter; tree and layout compared with the reference model", SEQN),
p("C18", "Raw content passes through unchanged; closing a start tag early is harmless",
  "Raw content appears byte for byte at the point of the call in any context where it is allowed and disturbs nothing around it. Forcing the current node to be opened has no effect besides that and may be done any number of times.",
  ["histories", "inputs"], "every reachable context x raw strings, sizes around the buffer, repeated and misplaced calls, all continuations",
  "Two tests write raw content in one place.",
  ["nodes.go", "writer.go"],
  [("raw", "nodes.go Raw.write"), ("next", "writer.go Next")],
  M, "explicit-state search over control states; output with and without the call compared on the real Writer for every continuation", SEQN),
p("C19", "The XML declaration contains exactly what was asked for",
  "Starting a document writes exactly one XML declaration that shows version, encoding and standalone as configured on the writer or forced on the document, in the grammar's order, with each suppressed or unset part left out and the documented defaults for the rest, followed by the writer's newline string; an illegal encoding name is refused.",
  ["configurations", "inputs"], "every combination of the document options, writer versions/encodings and following content",
  "Tests try about ten of the combinations.",
  ["nodes.go", "writer.go", "check.go"],
  [("declaration", "nodes.go Doc.open")],
  E, "exhaustive product of all declaration options on the real Writer against the grammar",
  "Complete over the option product with small value sets."),
p("C20", "The error collector keeps the first error and never loses or invents one",
  "A collector reports the first non-nil error it was given, with its position, whichever way errors are fed to it and however often; later errors do not replace it. With no error it reports none and leaves the caller's result alone, and its panic/recover hand-over delivers exactly that error.",
  ["histories"], "every sequence of collector calls up to a length over every short vector of errors and nils",
  "Four tests cover one call each.",
  ["errs.go"],
  [("collector", "errs.go Do, Must, Set, Panic, Unwrap")],
  M, "explicit-state search: every call sequence on the real collector against a reference automaton",
  "Complete within sequence and vector bounds; single goroutine."),
p("C21", "Writers are independent of each other",
  "Writers with separate destinations never influence each other: used alternately, from inside each other's callbacks, or from different goroutines, each produces exactly what it would produce alone, without data races.",
  ["schedules", "histories"], "all interleavings of the calls of two writers' scripts, all placements of one writer's calls inside the other's destination and indenter callbacks, concurrent runs of every pair",
  "Tests use one writer at a time.",
  ["writer.go", "printer.go", "elem.go", "indenter.go", "nodekind.go"],
  [("no shared mutable state", "package-level variables, writer.go newWriter")],
  M, "exhaustive schedule enumeration of two real writers plus a vector-clock happens-before check of every pair of scripts",
  "All call-level interleavings and callback placements; finer interleavings are covered by race freedom of the executed paths (happens-before), which implies equivalence with a serial schedule."),
p("C22", "What a node looks like does not depend on history or on reuse of its value",
  "A node is written the same whatever complete nodes were written before it by the same writer, including refused calls, and a node value can be written any number of times: writing never modifies the caller's values, slices or spare capacity.",
  ["histories", "inputs"], "all pairs of preceding and following subtrees up to a size, all probes after all call sequences up to a depth, every node value written twice in every context",
  "Tests use a fresh writer and fresh values each time.",
  ["writer.go", "elem.go", "dtd.go", "attr.go", "node.go"],
  [("reuse of node storage", "node.go clear, writer.go pushBegin"), ("by-value nodes and shared slices", "elem.go, dtd.go")],
  E, "exhaustive enumeration of (history, node) pairs on the real Writer, differential against a fresh writer",
  "Complete within the size bounds; no indenter."),
p("C23", "Relaxing the checks never changes what is written",
  "Turning the enforcement of rules or of strict characters off makes no difference to the output of calls that are accepted with them on; it only makes more calls acceptable: with the enforcement off, no node handed to Write or Start is refused for its place or for the form of its names and content, and these are written as given.",
  ["configurations", "histories"], "all fully accepted call sequences up to a depth and all declaration/value variants, each with the checks on and off",
  "Only single values are tested with checks off.",
  ["writer.go", "attr.go", "elem.go", "nodes.go", "dtd.go", "printer.go"],
  [("Enforce/StrictChars branches", "every write/open method")],
  M, "stateless model checking of call sequences, differential between configurations on the real Writer", SEQN),
p("C24", "A custom indenter is told of every node exactly once, in document order",
  "An indenter's callbacks see each node's opening, opened and ended events exactly once, properly nested and in document order, with the previous event passed along, at the right place in the output, and never for refused calls; content it wraps is passed exactly once and its errors reach the caller.",
  ["histories", "fault_sequences"], "all accepted call sequences up to a depth with a recording indenter, an error at every event, every wrapped content",
  "Tests only look at the standard indenter's final output.",
  ["writer.go", "node.go", "indenter.go", "nodes.go"],
  [("event emission", "writer.go writeIndent, node.go open/opened/end"), ("wrapping", "nodes.go Comment/CData content")],
  M, "stateless model checking of call sequences with a recording/faulting indenter against a protocol automaton", SEQN),
p("C25", "Every kind and state has a stable, distinct, printable name",
  "Naming a node kind or node state never panics, every valid one has its own non-empty name that matches the documented constant, and invalid values are recognisably unnamed. An event prints with the name of its kind, and different events print differently.",
  ["inputs"], "all integers in a wide range as node kinds and all states",
  "Tests do not look at names except inside messages.",
  ["nodekind.go", "node.go", "misc.go"],
  [("name tables", "nodekind.go kindName, node.go stateName")],
  E, "exhaustive enumeration of the integer domain (bounded range plus extremes) on the real functions",
  "Complete over the enumerated range; names also exercised through error messages."),
p("C26", "Empty elements use the short form unless the full form is asked for",
  "An element without content is written in the short form, and in the full form exactly when its options or the ending call ask for it or it has content; either choice affects only that element, whatever precedes or surrounds it.",
  ["histories", "inputs"], "all element sequences up to a depth with every combination of full options, ending calls, attributes, content kinds and empty content",
  "Seven tests look at single elements.",
  ["elem.go", "writer.go"],
  [("end tag form", "elem.go end, writer.go EndElemFull")],
  M, SEQ + " that predicts the tag form", SEQN),
p("C27", "Write failures are never swallowed",
  "When the destination fails at any point, the failure is reported to the caller at the latest by the closing flush, as the destination's own error; what was delivered is a prefix of the document, nothing more is sent after the failure, and the writer never panics.",
  ["fault_sequences", "crash_points"], "a failure of each kind (error with nothing, half or everything written; short write), permanent or transient, at every write the fault-free run makes, for every document, buffer size, encoding and flush policy of the set",
  "One test uses a destination that fails at its first write.",
  ["printer.go", "writer.go"],
  [("sticky write errors", "printer.go cachedWriteError, writer.go Flush/EndAllFlush")],
  F, "systematic fault injection: every failure kind at every destination write of every document/buffer/flush combination",
  "Complete over the documents, buffer sizes and fault points listed in the evidence."),
]
EXTRA = os.path.join(root, "tools", "props_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        d = dict(id=x["id"], title=x["title"], statement=x["statement"],
                 quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                 anchors=dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]],
                              observe_at=x["observe"], hook_needed=None))
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(d) + "\n")
man = dict(version=1, setup_cmd="bash run.sh setup", checks=[], not_applicable=[],
  notes="No hooks in /repo: everything is driven through the exported API. run.sh builds /verif/mc against /repo's working tree into a temporary directory on every run. See DESIGN.md.")
for x in P:
    man["checks"].append(dict(property=x["id"], quick_cmd="bash run.sh check %s" % x["id"],
        thorough_cmd="bash run.sh check %s -tier thorough" % x["id"],
        technique=x["technique"], level=x["level"], level_note=x["note"]))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
