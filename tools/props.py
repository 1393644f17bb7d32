#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that the
two stay in step. Run: python3 tools/props.py"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, level="exploration", technique="", note="", observe=None, claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, observe=observe or [], claim=claim))


EX = "the tests parse half a dozen fixed programs"
LAYX = "the tests lay out four fixed diagrams and compare their SVG"

prop("C01", "Documented programs are accepted and mean what they say",
     "Every text that the documented grammar (with // comments) allows is accepted without any diagnostic, whatever its size, spacing, comments and line endings. The resulting module has exactly the written name, entities, fields, field types, keys and relations, in the written order.",
     ["programs"], "all programs of the documented grammar, in every spelling (blanks, tabs, LF/CRLF, `;` or newline separators, comments, quoted or bare names)",
     EX + "; the language is infinite and each rule interacts with spacing, comments and neighbours",
     ["src/parser.rs", "src/erd.rs"],
     [("tokenizer", "src/parser.rs tokenizer()"), ("grammar combinators", "src/parser.rs erd_module_parser()")],
     technique="runtime monitor: grammar-driven program generator, reference recogniser as oracle",
     note="Each observed parse is compared with the module the program was generated from, and the generator is cross-checked against an independently written recogniser. Exploration: programs are sampled, not enumerated.",
     observe=["parse()", "Module::entries()"])

prop("C02", "Nothing outside the language passes without a diagnostic",
     "A text that is not a program of the documented language - a typing mistake, a truncated file, anything before or after the module, characters that are no token (blanks are spaces and tabs, lines end with LF or CRLF) - is never accepted silently: at least one diagnostic is returned for it. If no diagnostic is returned, the module holds everything the text says.",
     ["inputs"], "all texts: programs with small edits, truncations at every length, fragments of the language in any order, random characters",
     "the tests contain no invalid program at all",
     ["src/parser.rs"],
     [("end of input is required", "src/parser.rs erd_module_parser(), tokenizer()"), ("error recovery keeps the errors", "src/parser.rs parse()")],
     technique="runtime monitor: mutated and hostile texts, independent recogniser as oracle",
     note="Texts whose status the documentation leaves open (`;` used as a blank) may be rejected, but must not be read as something else; their number is reported. Exploration.",
     observe=["parse()"])

prop("C03", "Names come through exactly: quoting, escapes, reserved words",
     "A back-quoted name may hold any character, denotes exactly the characters written, and each documented escape denotes its character; a \\u escape with four hex digits denotes that code point, and is diagnosed if it is no character; unknown or incomplete escapes are diagnosed. Bare names are ASCII letters, digits and underscores; reserved words are recognised only as whole words in their exact case, and a quoted reserved word is a plain name.",
     ["inputs"], "every Unicode scalar inside quotes, every 4-digit \\u escape in either case, every character after a backslash, every prefix/extension/case variant of a reserved word, in every name position",
     "the tests quote two names; there are over a million characters and 65536 escapes",
     ["src/parser.rs"],
     [("quoted_ident and escape", "src/parser.rs tokenizer()"), ("text::keyword / text::ident", "src/parser.rs tokenizer()")],
     technique="runtime monitor: exhaustive enumeration of characters, escapes and reserved-word variants",
     note="The single-character spaces are enumerated completely (all scalars, all 65536 escapes); multi-character names are sampled.",
     observe=["parse()"])

prop("C04", "Reading any text ends with a module or a located diagnostic",
     "For every text, parsing terminates without panicking or exhausting the stack, and returns a module or at least one diagnostic. Every diagnostic's span is a non-reversed range of character positions inside the text (or just past its end), and printing each diagnostic through the command-line program does not crash it.",
     ["inputs"], "all texts, including binary noise, very long lines and names, deep or unbalanced brackets, unterminated quotes and comments",
     "the tests contain no invalid text",
     ["src/parser.rs", "src/main.rs"],
     [("parse_recovery", "src/parser.rs parse()"), ("error report", "src/main.rs main()")],
     technique="runtime monitor: hostile-input stress in watchdogged processes, span oracle, real CLI runs",
     note="A crash, stack overflow, hang (60 CPU seconds) or memory blow-up (6 GB) of the worker process counts as a violation after it repeats alone.",
     observe=["parse()", "stderr and exit status of the program"])

prop("C05", "The first diagnostic points at the offending place",
     "When a text made of valid tokens is not a program, the earliest diagnostic starts exactly at the first token that cannot continue any program beginning with the text before it (or at the end of the text, when it merely stops too early). When the text contains characters that form no token, some diagnostic starts within the first run of characters that begins no token or breaks one off, or before it at a token that does not fit.",
     ["inputs"], "all texts that are not programs: edits, truncations, fragments in any order",
     "no test looks at a diagnostic",
     ["src/parser.rs"],
     [("spans of tokens", "src/parser.rs tokenizer() map_with_span"), ("furthest error of the combinators", "src/parser.rs erd_module_parser()")],
     technique="runtime monitor: viable-prefix oracle over erroneous texts",
     note="The oracle is the viable-prefix property of an independent LL recogniser. Exploration.",
     observe=["Simple::span() of returned diagnostics"])

prop("C06", "Printed modules read back as the same module",
     "A module whose names are bare names and not reserved words, when printed, is a valid program that parses without diagnostics to an equal module; printing that again gives the same text.",
     ["programs"], "all modules with bare names, built through the API or by parsing",
     EX + " and compare the printed text only for those",
     ["src/erd.rs", "src/parser.rs"],
     [("Display for Module, EntityDefinition, EntityField, EntityRelation", "src/erd.rs")],
     technique="runtime monitor: round-trip oracle on generated modules",
     note="Exploration. Names that need quoting are printed unquoted by design of the existing tests and are excluded.",
     observe=["Module::to_string()", "parse()"])

prop("C07", "The document drawn says what the module says",
     "The document built from a module has one table per entity definition in order, each with a header row naming the entity and one row per field in order with the field's name, its type's keyword and its key badge, and nothing else. It has one edge per relation, in order and from the right table or row to the right table or row, exactly when both ends are defined anywhere in the module; building never fails and does not depend on where relations stand among the entities.",
     ["programs"], "all modules: any names, duplicates, empty entities, dangling relations, relations before, between and after the entities",
     LAYX + "; none has duplicate names, dangling or forward relations, or unusual names",
     ["src/erd.rs", "src/mir.rs"],
     [("Module::into_mir", "src/erd.rs"), ("node_paths map", "src/erd.rs into_mir()")],
     technique="runtime monitor: document compared with the source module element by element",
     note="Where a name is defined several times an edge may use any of its definitions. Exploration.",
     observe=["Document::body/get_node/edges"])

prop("C08", "A document keeps exactly what was put into it",
     "Through any sequence of operations, a document returns for each node and edge identifier the value created under it: shapes, children in the order appended, ports in the order added with the given place and direction, edge ends and paths. Identifiers are distinct and stay valid, iteration follows creation order, parallel and self edges are kept, and changing one node or edge changes no other.",
     ["histories"], "all sequences of document operations (create, append, add edge, set path, move, add port, read)",
     "one test builds one document and reads nothing back but its children",
     ["src/mir.rs"],
     [("Document over petgraph", "src/mir.rs"), ("TerminalPortId numbering", "src/mir.rs add_terminal_port()")],
     technique="runtime monitor: random API histories against a reference model",
     note="Exploration of histories up to a few hundred operations.",
     observe=["all public Document, NodeData and EdgeData accessors"])

prop("C09", "Tables form a grid in declaration order and never overlap",
     "Every table and row gets a place. Tables stand three to a row in declaration order, left to right, with equal widths, a common top edge per grid row, fixed gaps between columns, and each grid row a fixed gap below the tallest table of the one above; no two tables overlap. Rows of a table have equal height and fill it exactly from top to bottom in order, header first.",
     ["inputs"], "all modules with any number of tables and rows",
     LAYX + " of at most four tables",
     ["src/layout.rs"],
     [("place_nodes", "src/layout.rs SimpleLayoutEngine::place_nodes")],
     technique="runtime monitor: geometric oracle on the placed document",
     note="The constants (width, row height, gaps) are taken from a calibration diagram laid out by the same build, then required everywhere. Exploration.",
     observe=["NodeData::rect()"])

prop("C10", "Connection points sit on the borders, facing outwards",
     "Every table offers a connection point in the middle of each of its four sides, and every row offers one in the middle of its left and right side; only the first row also offers one at the table's top and only the last row one at its bottom. Each faces away from the table, and there are no others.",
     ["inputs"], "all modules with any number of tables and rows",
     LAYX + "; connection points themselves are never examined",
     ["src/layout.rs", "src/mir.rs"],
     [("place_terminal_ports", "src/layout.rs")],
     technique="runtime monitor: geometric oracle on the ports of every node",
     note="Exploration.",
     observe=["NodeData::terminal_ports()"])

prop("C11", "Every relation gets a connected route between its own ends",
     "Every relation whose ends are defined is routed. Its route consists of horizontal and vertical lines only, begins at a connection point of the first end and finishes at a connection point of the second end, leaves and arrives on the outer side of both, and never turns back on itself.",
     ["inputs"], "all modules and all relations between them, including self relations, parallel relations, table-to-own-row, crowded and long grids",
     LAYX + " with at most three relations",
     ["src/layout.rs"],
     [("draw_edge_path", "src/layout.rs"), ("junction network", "src/layout.rs connect_nearest_neighbor_edge_junctions()")],
     technique="runtime monitor: route oracle on every relation of generated diagrams",
     note="Exploration of random diagrams plus an enumeration of small grids.",
     observe=["EdgeData::path_points()"])

prop("C12", "Routes never run through a table",
     "No part of any relation's route passes through the interior of any table, its own ends' tables included.",
     ["inputs"], "all modules and all relations between them",
     LAYX + "; in them few tables stand in the way",
     ["src/layout.rs", "src/geometry.rs"],
     [("collision test between junctions", "src/layout.rs connect_nearest_neighbor_edge_junctions()"), ("Rect::intersects_line", "src/geometry.rs")],
     technique="runtime monitor: exact crossing oracle on every route segment",
     note="Exact for the axis-aligned segments that C11 requires; slanted segments are reported too. Exploration.",
     observe=["EdgeData::path_points()", "NodeData::rect()"])

prop("C13", "Routes make no needless detours",
     "A relation's route is as short as possible, up to one unit per segment, among all the routes through the network of junctions it is drawn on, over all pairs of connection points of its two ends. It is also no longer, up to the same tolerance, than the best route over the documented junctions: the corners of a margin around each table, and the points where straight lines from the connection points meet those margins' sides.",
     ["inputs"], "all modules and all relations between them",
     LAYX + "; no test knows the shortest length",
     ["src/layout.rs"],
     [("compute_shortest_path, find_shortest_edges_path", "src/layout.rs"), ("RouteCost", "src/layout.rs")],
     technique="runtime monitor: independent Dijkstra over the exported and over a reference junction network",
     note="Upper bound oracle: a better route is never a violation. Exploration.",
     observe=["EdgeData::path_points()", "SimpleLayoutEngine::edge_route_graph()"])

prop("C14", "Everything drawn lies inside the view box",
     "For every module the layout yields a view box with positive finite size, and all tables, rows, texts' anchor points, badges, routes, rounded corners and end circles of the drawing lie inside it.",
     ["inputs"], "all modules, including those without tables, and any number of tables and relations",
     LAYX + "; the empty diagram's view box is not examined",
     ["src/layout.rs", "src/renderer.rs"],
     [("view box computation", "src/layout.rs place_nodes()"), ("viewBox attribute", "src/renderer.rs render()")],
     technique="runtime monitor: bounding-box oracle over the parsed SVG",
     note="Exploration.",
     observe=["place_nodes() result", "viewBox of the SVG"])

prop("C15", "A used engine lays out like a fresh one",
     "Laying out a document gives the same places, connection points, routes and view box with a new engine, with an engine that has laid out any other documents before, and when the same document is laid out again, even if it has grown since; documents laid out earlier are not changed by it.",
     ["histories"], "all sequences of documents laid out with one engine, in any order and number, and repeated layout of one document, unchanged or grown",
     "every test uses an engine for one document once",
     ["src/layout.rs"],
     [("edge_route_graph is rebuilt per document", "src/layout.rs draw_edge_path()")],
     technique="runtime monitor: differential oracle (fresh engine) over reuse histories",
     note="Exploration.",
     observe=["rects, path_points, view box, rendered SVG"])

prop("C16", "The junction network is consistent",
     "In the network of a laid-out diagram no two junctions share a place, every link joins two distinct junctions in a straight horizontal or vertical line with no other passable junction between them and passes through no table, links appear once, and links at a connection point leave it only outwards. Adding junctions and links through the network's API in any order never duplicates a place or a link, and lookups return what was added.",
     ["inputs", "histories"], "all laid-out modules; all sequences of network operations",
     "no test examines the network",
     ["src/layout.rs"],
     [("RouteGraph::add_node, add_edge, add_terminal_port", "src/layout.rs"), ("connect_nearest_neighbor_edge_junctions", "src/layout.rs")],
     technique="runtime monitor: invariant checks on exported networks and model-based API histories",
     note="Exploration.",
     observe=["SimpleLayoutEngine::edge_route_graph()", "RouteGraph public API"])

prop("C17", "The output is well-formed SVG and shows names verbatim",
     "For every module the output is one well-formed XML document in the SVG namespace, whatever characters the names contain, and the text content read back from it by an XML reader is exactly the name (characters XML cannot represent may only be replaced by U+FFFD, one for one). No name adds or removes any element or attribute.",
     ["inputs"], "all modules with all names, including markup characters, entities, control characters, noncharacters, CR/LF and every Unicode scalar",
     "the tests draw four names of plain ASCII letters",
     ["src/renderer.rs"],
     [("draw_text escaping", "src/renderer.rs"), ("svg crate writes text unescaped", "src/renderer.rs draw_text()")],
     technique="runtime monitor: strict XML reader over rendered output, exhaustive over scalars",
     note="All Unicode scalars are enumerated as names (in groups) on every run; longer hostile names are sampled.",
     observe=["bytes written by render()"])

prop("C18", "Tables and rows are drawn where they were placed",
     "The drawing has, for each table in order, one box at its place, rounded if its shape is, and for each row in order its background if it has one (clipped by that table's own clip shape), a separating line at its top except for the first row, its title anchored left, its type anchored right, and its badge with circle and text; every text is vertically centred in its row, horizontally inside it, and in the colour and font of its span. There is nothing else but background, clip shapes and relations.",
     ["inputs"], "all laid-out documents, from modules and built through the document API with any colours, fonts, badges, sizes and places",
     "the tests compare the SVG of four diagrams, all with default styles",
     ["src/renderer.rs"],
     [("render loop over records and fields", "src/renderer.rs render()"), ("clip path ids", "src/renderer.rs render()")],
     technique="runtime monitor: parsed SVG compared with the document, element by element",
     note="Exploration.",
     observe=["bytes written by render()"])

prop("C19", "Relation lines follow their routes with rounded corners",
     "Each relation is drawn, in order and above the tables, as one visible unfilled path and two equal circles centred at the route's first and last point. The path starts and ends there, passes through every straight-through point, and replaces each corner by a curve whose control point is the corner and whose ends lie on the two adjoining lines of the route at equal distance; along each line it never runs backwards or leaves the line.",
     ["inputs"], "all routes made of horizontal and vertical lines: routes of laid-out diagrams and arbitrary ones set through the document API, with lines of any length",
     "the tests draw seven relations; several corner directions never occur",
     ["src/renderer.rs"],
     [("draw_edge_connection", "src/renderer.rs"), ("Point::orthogonal_direction", "src/geometry.rs")],
     technique="runtime monitor: path-data reader and geometric oracle, routes from layout and synthetic",
     note="Exploration; every ordered pair of directions must have been observed.",
     observe=["path and circle elements of the SVG"])

prop("C20", "Incomplete layouts are refused, never half drawn",
     "Rendering a document in which a table, a row or an edge has not been laid out returns an invalid-layout error that names a node concerned, writes nothing, and does not panic; a fully laid out document is never refused. Rendering does not change the document.",
     ["histories"], "all documents with any subset of places, sizes and routes missing, and any prefix of the layout steps skipped",
     "every test lays everything out",
     ["src/renderer.rs", "src/error.rs"],
     [("InvalidLayout checks", "src/renderer.rs render(), draw_edge_connection()")],
     technique="runtime monitor: layout data removed at every position, error and output observed",
     note="Exploration; for each sampled document every single missing item is tried.",
     observe=["result of render() and bytes written"])

prop("C21", "A failed write is always reported",
     "If the destination fails at any point, or accepts no more bytes, rendering returns an I/O error carrying the destination's error, without panicking, and what was accepted is a prefix of the full output; short and interrupted writes alone never make it fail or lose, repeat or reorder bytes.",
     ["fault_sequences"], "all fault points (every byte offset) and sequences of short and interrupted writes",
     "the tests write to a vector that never fails",
     ["src/renderer.rs", "src/error.rs"],
     [("write_all in render", "src/renderer.rs"), ("BackendError::IoFailure", "src/error.rs")],
     level="fault_enumeration",
     technique="runtime monitor: fault-injecting writer at every byte offset, prefix oracle",
     note="Every byte offset of several diagrams and random fault sequences on others.",
     observe=["result of render() and the writer's log"])

prop("C22", "Output depends on nothing but the input",
     "The same text or module gives byte-for-byte the same SVG and the same diagnostics on every call, in every thread, in a fresh process, under any environment, whatever was processed before or is processed at the same time.",
     ["schedules", "histories"], "all programs and erroneous texts; repeated, concurrent and fresh-process runs",
     "each test runs once",
     ["src/layout.rs", "src/erd.rs", "src/main.rs"],
     [("hash maps are used for lookup only", "src/erd.rs into_mir(), src/layout.rs RouteGraph"), ("diagnostics sort what was expected", "src/main.rs")],
     technique="runtime monitor: differential runs across calls, threads, processes and environments",
     note="Threads run under the OS scheduler; the library has no shared state to interleave on. Exploration.",
     observe=["SVG bytes, diagnostics, stdout and stderr of the program"])

prop("C23", "Meaning-preserving edits leave the picture alone",
     "Changing only blanks, comments, line endings, separators or the quoting of names leaves the drawing byte-for-byte the same. Renaming entities or fields consistently changes nothing but the texts; changing types and keys changes nothing but types' texts, their colours and badges; adding, removing or reordering relations moves no table, and relations' ends may be anywhere among the entities without changing the picture.",
     ["programs"], "all pairs of programs related by such an edit",
     "the tests never compare two diagrams",
     ["src/parser.rs", "src/erd.rs", "src/layout.rs", "src/renderer.rs"],
     [("whole pipeline", "src/parser.rs -> src/erd.rs -> src/layout.rs -> src/renderer.rs")],
     technique="runtime monitor: metamorphic oracle over pairs of runs",
     note="Exploration.",
     observe=["SVG bytes"])

prop("C24", "The command-line program prints what the library draws",
     "Given a file name or standard input, the program writes to standard output exactly the SVG the library yields for that text, with the layout's view box, or nothing at all if there is no module; a program without mistakes yields nothing on standard error, and every diagnostic is reported there with its line and column and the file's name. An unreadable or non-UTF-8 input gives a message, no output and a failing status, and no input makes the program panic.",
     ["inputs"], "all files and standard inputs: programs, erroneous texts, empty, huge, missing, directory, non-UTF-8",
     "no test runs the program",
     ["src/main.rs"],
     [("main", "src/main.rs")],
     technique="runtime monitor: the built program run as a process, compared with the library in-process",
     note="Exploration. The exit status for texts with mistakes is not judged.",
     observe=["stdout, stderr, exit status"])

prop("C25", "The program never claims success for a truncated drawing",
     "If standard output cannot take the whole drawing - disk full at any byte, a closed pipe, a full device - the program exits with a failing status; if it exits successfully the whole drawing was written.",
     ["fault_sequences", "crash_points"], "every byte offset at which output may fail, and closed or full destinations",
     "no test runs the program",
     ["src/main.rs"],
     [("flush before exit", "src/main.rs main()")],
     level="fault_enumeration",
     technique="runtime monitor: OS-level fault injection at every output byte (file size limit, closed pipe, /dev/full)",
     note="File-size limits at every byte offset of one drawing and sampled offsets of others.",
     observe=["exit status and bytes in the output file"])

prop("C26", "Notebook output is framed correctly",
     "Displaying a document in a notebook prints exactly one frame: a begin line naming the SVG type, the same SVG the renderer yields for that document and view box, and an end line.",
     ["inputs"], "all laid-out documents and view boxes, with any names",
     "no test covers it",
     ["src/evcxr.rs"],
     [("evcxr_display, draw_erd", "src/evcxr.rs")],
     technique="runtime monitor: captured standard output of a process compared with the renderer",
     note="Exploration.",
     observe=["stdout"])

prop("C27", "Line-rectangle intersection agrees with geometry",
     "A line and a rectangle are reported to intersect exactly when they share a point, except that a line strictly inside the rectangle is not; the answer is the same whichever end is named first. The reported piece lies on the line and in the rectangle and spans the whole of their common part.",
     ["inputs"], "all lines and rectangles with coordinates that floating point represents exactly enough, in every relative position, including touching, parallel and degenerate ones",
     "the tests check about twenty pairs",
     ["src/geometry.rs"],
     [("Liang-Barsky clipping", "src/geometry.rs Rect::intersected_line")],
     technique="runtime monitor: exact integer-arithmetic oracle, small grids enumerated",
     note="All placements on a small grid are enumerated; larger coordinates are sampled. Tolerances cover f32 rounding only.",
     observe=["Rect::intersects_line, Rect::intersected_line"])

prop("C28", "Points, rectangles and paths compute what they document",
     "Distance is symmetric, non-negative and Euclidean; the direction of a horizontal or vertical line is right; a rectangle's edges, middles and centre agree with its origin and size; containment includes all four edges; insetting moves the origin by the given amounts, changes the size by twice as much, and never makes it negative. A path keeps its commands in order and knows its first and last point.",
     ["inputs", "histories"], "all points, sizes and insets of ordinary magnitude (squares stay finite); all sequences of path commands",
     "the tests check a handful of values",
     ["src/geometry.rs"],
     [("Point, Size, Rect, Path", "src/geometry.rs")],
     technique="runtime monitor: reference arithmetic on sampled and grid values",
     note="Exploration.",
     observe=["public methods of Point, Rect and Path"])

prop("C29", "Colours are written exactly",
     "Every colour is written as the hash sign and six upper-case hex digits of its red, green and blue parts, in that order, and the named colours as their names; in a drawing each shape and text carries the colour it was given.",
     ["inputs"], "all 16.7 million colours; all documents with any colours",
     "the tests check three colours",
     ["src/color.rs", "src/renderer.rs"],
     [("Display for RGBColor, NamedColor, WebColor", "src/color.rs")],
     technique="runtime monitor: exhaustive enumeration of channel values",
     note="All 2^24 colours on every run; colours in drawings are sampled.",
     observe=["to_string()", "fill and stroke attributes"])

prop("C30", "No memory error or undefined behaviour is ever executed",
     "Reading, laying out and drawing any text, good or bad, large or small, executes no invalid memory access, no ever-growing use of memory, no arithmetic overflow and no undefined behaviour, in this code and the libraries it drives.",
     ["inputs", "histories"], "all texts, documents and API histories of the other properties",
     "the tests run a few inputs without any instrumentation",
     ["src/parser.rs", "src/layout.rs", "src/renderer.rs", "src/geometry.rs", "src/mir.rs"],
     [("safe Rust throughout; smallvec, petgraph and chumsky underneath", "src/")],
     technique="AddressSanitizer build of the whole pipeline under hostile workloads, allocation balance monitor, Miri interpreter on a smaller workload",
     note="ASan with overflow checks and debug assertions on, allocations counted per series, Miri on short texts and small modules. Only executed paths are judged.",
     observe=["sanitizer reports"])

prop("C31", "Work grows moderately with the input",
     "The work of reading a text - time and memory, whether it is valid or not - grows no faster than about proportionally to its length. So does the work of building a document from a module in the number of its parts, and that of writing the drawing of a laid-out document in the number of its parts and route points. The work of laying out grows no faster than a fixed low power of the number of tables, rows and relations, so that a diagram of dozens of tables is drawn within seconds.",
     ["inputs"], "all texts and modules by growing size: long names, comments, many fields, many entities, many relations, erroneous texts of each kind",
     "the tests use tiny inputs",
     ["src/parser.rs", "src/layout.rs"],
     [("combinators without ambiguity", "src/parser.rs"), ("junction network", "src/layout.rs")],
     technique="runtime monitor: allocation counts and CPU time over doubling families of inputs",
     note="Growth is judged on ratios between sizes with wide margins, allocation counts being deterministic.",
     observe=["counting allocator, CPU clock"])

prop("C32", "The debug overlay adds to the picture and hides nothing of it",
     "Giving the renderer the junction network adds, after everything else, one line with an arrow head pointing to its far end per link, one labelled dot per junction, one dot per route point and one label per table, each at its place, and leaves all that was drawn without it unchanged.",
     ["inputs"], "all laid-out documents and their networks",
     "no test draws the overlay",
     ["src/renderer.rs"],
     [("draw_debug_info", "src/renderer.rs")],
     technique="runtime monitor: drawings with and without overlay compared element by element",
     note="Exploration.",
     observe=["bytes written by render()"])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if not p["claim"]:
            continue
        checks.append(dict(property=p["id"], quick_cmd="sh run.sh check %s" % p["id"],
                           thorough_cmd="VERIF_TIER=thorough sh run.sh check %s" % p["id"],
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    m = dict(version=1, setup_cmd="sh run.sh build", checks=checks,
             not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if not p["claim"]],
             notes="No hooks: everything is observed through the public API and the built program. `sh run.sh one ID TIER SEED CASE` replays a case; `sh run.sh list` names the checks.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
