#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a development helper; no check runs it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, na=na))

L = "layout/src/"
p("C01", "Parsing terminates without a crash on every text",
  "For every text, parsing it as a DOT document finishes and returns either a tree or an error with a non-empty description. It never panics, overflows, reads out of bounds or runs forever.",
  ["inputs"], "Every text, valid or not: truncated documents, unterminated strings and comments, stray punctuation, control characters and characters outside ASCII. Nesting depth is limited by the call stack only.",
  "The existing tests parse a few valid documents and some broken ones; the set of texts is infinite and the crashes hide in truncations and odd character pairs.",
  [L+"gv/parser/lexer.rs", L+"gv/parser/parser.rs"],
  [("lexer", L+"gv/parser/lexer.rs: next_token, read_string, read_identifier, read_number, read_comment, skip_line"), ("recursive descent parser", L+"gv/parser/parser.rs: process, parse_graph, parse_stmt_list, parse_attr_list")],
  ["DotParser::process"])
p("C02", "The parsed tree says exactly what the document says",
  "A document of the supported DOT subset is accepted, and its tree holds exactly the statements written in it: in order, with their names, ports, edge operators, attribute names and values, and the nesting of subgraphs, whatever comments, spaces and semicolons separate them. A text outside the grammar is rejected with an error.",
  ["inputs"], "Every document over the supported subset (graph, digraph, strict; node, edge and attribute statements; chains; ports; attribute lists; named subgraphs; quoted and bare identifiers, numbers; line and block comments), and every text that is outside the grammar.",
  "The tests look at whether a few documents parse, not at what the tree says; a dropped character, attribute or statement in some context goes unnoticed.",
  [L+"gv/parser/lexer.rs", L+"gv/parser/parser.rs", L+"gv/parser/ast.rs"],
  [("token rules", L+"gv/parser/lexer.rs: next_token"), ("grammar", L+"gv/parser/parser.rs: parse_stmt_list, parse_stmt, parse_edge_stmt, parse_attr_list, parse_node_id")],
  ["the tree returned by DotParser::process"])
p("C03", "Attributes and defaults reach exactly the nodes and edges they apply to",
  "The graph built from a parsed document has one node per distinct name, in order of first mention, and one edge per edge operator, in order, with the right end points, ports and arrow heads. Every node and edge is drawn with its own attributes, over the defaults in force at its place in the document: a default affects only what is created after it in its own block and in the blocks inside it, and never leaks out of them. The attributes that are supported (label, shape, color, fill color, style, font size, line width, direction of the graph) decide the drawn label, outline, colors, sizes and direction, and unknown or malformed values leave the standard look.",
  ["programs", "inputs"], "Every sequence of node, edge, default and subgraph statements, nested to any depth, with any attribute values.",
  "The tests build a few documents and do not compare the look of the elements; scoping bugs need particular orders of defaults, redeclarations and subgraphs.",
  [L+"gv/builder.rs", L+"adt/map.rs"],
  [("scopes of defaults", L+"gv/builder.rs: visit_graph, visit_node, visit_edge, visit_att"), ("mapping to shapes and arrows", L+"gv/builder.rs: get_shape_from_attributes, get_arrow_from_attributes, get")],
  ["VisualGraph::element, the draw calls"])
p("C04", "Records are drawn with the fields their label describes",
  "The label of a record is divided into fields exactly where its bars and braces say, keeping the order of the fields, their text (without the spaces around it) and their port names, for every label: fields without any text are left out, a block that is not closed ends with the label, and a closing brace without a block ends the label. The drawn fields tile the outline of the record without gaps or overlaps, alternate between rows and columns at each level of nesting starting with the direction across the graph, and each text is at the middle of its field. An edge that names a port of a record attaches to the outline of that field.",
  ["inputs"], "Every record label (any characters, nesting, empty fields, unbalanced braces), both graph directions, every box size and font size from 1 to 1000.",
  "The tests draw a few fixed records and only look at whether drawing works.",
  [L+"gv/record.rs", L+"std_shapes/render.rs"],
  [("label parser", L+"gv/record.rs: RecordParser::parse"), ("placement of fields", L+"std_shapes/render.rs: visit_record, get_record_size, render_record"), ("ports", L+"std_shapes/render.rs: get_record_port_location")],
  ["the tree of fields, draw_rect and draw_text calls, first and last points of draw_arrow"])
p("C05", "Laying out any graph finishes without a crash",
  "For every graph and every combination of options, assigning places to the elements and drawing them finishes without a panic, an overflow or an endless loop, and every coordinate that is drawn is a finite number. The work stays reasonable: it does not grow exponentially with the number of nodes and edges.",
  ["inputs", "configurations"], "Every graph: empty, disconnected, with cycles, self edges, parallel edges, edges that skip many ranks, labels, records and ports; every node size from 1 to 1000 (labels and fonts that give such sizes); both directions; debug mode, optimizations and placement on or off.",
  "The tests lay out a few dozen fixed graphs; the assertions of the placement passes fail only on particular combinations of topology and sizes.",
  [L+"topo/layout.rs", L+"topo/placer/place.rs", L+"topo/placer/bk.rs", L+"topo/placer/edge_fixer.rs", L+"topo/placer/verifier.rs", L+"topo/optimizer.rs", L+"adt/dag.rs"],
  [("lowering", L+"topo/layout.rs: to_valid_dag, split_text_edges, split_long_edges, expand_self_edges"), ("placement", L+"topo/placer/place.rs: layout"), ("drawing", L+"topo/layout.rs: render")],
  ["VisualGraph::do_it"])
p("C06", "Every node and every edge is drawn, once, as specified",
  "Every node of a graph is drawn exactly once, with its own shape, size, look and label. Every edge is drawn as exactly one line that starts at its source and ends at its target, with its line style, its look and its heads at the right ends, even when the graph has cycles, self edges and parallel edges; its label is shown exactly once. Nothing else is drawn, unless debug mode is on.",
  ["inputs", "configurations"], "Every graph and every combination of directions, optimizations, placement and debug mode; edges against the direction of the ranks, self edges, parallel edges, edges over many ranks, labelled edges whose label moves to another rank, invisible edges.",
  "The tests count arrows of a few graphs; edges are reversed, split, merged with labels and moved between rows along the way, so losing one needs a particular mix.",
  [L+"topo/layout.rs", L+"std_shapes/render.rs", L+"std_shapes/shapes.rs", L+"topo/placer/move_between_rows.rs"],
  [("reversal of back edges", L+"topo/layout.rs: to_valid_dag; "+L+"std_shapes/shapes.rs: Arrow::reverse"), ("connectors for labels and long edges", L+"topo/layout.rs: split_text_edges, split_long_edges, expand_self_edges"), ("drawing", L+"std_shapes/render.rs: render_arrow, generate_curve_for_elements")],
  ["the draw calls"])
p("C07", "Edges point along the direction of the graph",
  "In a drawn graph, an edge that is not on a cycle goes strictly forward: its target is placed entirely below its source in a top-to-bottom graph, and entirely to the right of it in a left-to-right graph. An edge goes backward only when the edges added before it already lead from its target to its source, and no edge between different nodes connects two nodes of the same rank.",
  ["inputs", "configurations"], "Every graph, every node size from 1 to 1000, both directions, with and without optimizations and placement.",
  "The tests look at the ranks of a few graphs before placement, never at the drawn coordinates.",
  [L+"topo/layout.rs", L+"adt/dag.rs", L+"topo/optimizer.rs", L+"topo/placer/simple.rs"],
  [("acyclic order", L+"topo/layout.rs: to_valid_dag; "+L+"adt/dag.rs: is_reachable"), ("ranks", L+"adt/dag.rs: compute_levels, recompute_node_ranks"), ("rows", L+"topo/placer/simple.rs: assign_y_coordinates")],
  ["the boxes that are drawn"])
p("C08", "Nodes are drawn apart from each other and inside the drawing",
  "After placement no two nodes overlap or touch: between every two nodes there is free space, also between a node and the label of an edge. Every node and every label lies inside the visible area, whose corner is the origin.",
  ["inputs", "configurations"], "Every graph, every node size from 1 to 1000, both directions, with and without optimizations and placement, labels of any size on edges, self edges, parallel edges and edges over several ranks.",
  "The tests have no geometric oracle; overlaps need particular size ratios between rows and labels.",
  [L+"topo/placer/simple.rs", L+"topo/placer/bk.rs", L+"topo/placer/edge_fixer.rs", L+"topo/placer/move_between_rows.rs", L+"topo/layout.rs"],
  [("placement of rows", L+"topo/placer/simple.rs: assign_x_coordinates, assign_y_coordinates, align_to_left"), ("block placement", L+"topo/placer/bk.rs: Scheduler"), ("final adjustments", L+"topo/placer/edge_fixer.rs: straighten_edge, align_self_edges, handle_disconnected_nodes")],
  ["the boxes that are drawn"])
p("C09", "The SVG output is well formed and shows every text unchanged",
  "For every sequence of draw calls with finite coordinates, the produced SVG document is a well-formed XML document with one root element, and every reference in it (clip region, arrow path, font class) names something that the document defines exactly once. Every label, after the XML escapes are undone, reads as it was given, line by line, except that characters XML does not allow are replaced. Every shape appears with the given coordinates, sizes, colors, line width, dash pattern and arrow heads, the lines of a text are centred on the given point, and the visible area covers the drawn boxes and the points of the arrows.",
  ["inputs", "histories"], "Every sequence of draw calls; labels with any characters; every font size, color, line width and finite coordinate.",
  "The tests do not parse the output; a label with one special character, or a second font size or clip region, breaks it silently.",
  [L+"backends/svg.rs"],
  [("escaping", L+"backends/svg.rs: escape_string"), ("fonts and clips", L+"backends/svg.rs: get_or_create_font_style, create_clip"), ("elements", L+"backends/svg.rs: draw_rect, draw_circle, draw_text, draw_arrow, finalize")],
  ["SVGWriter::finalize"])
p("C10", "The ranked graph structure stays consistent under every history",
  "After every history of operations on the ranked graph, the successor and predecessor lists mirror each other and hold exactly the edges added and not removed; removal says whether an edge was there. Reachability is exactly the existence of a path, and every node is in exactly one rank, where the last operation put it; recomputed ranks put every node right below its lowest predecessor.",
  ["histories"], "Every sequence of operations: new nodes, adding and removing edges (parallel edges included), moving nodes between ranks (before another node or at the end, also to ranks that do not exist yet), recomputing ranks, clearing.",
  "The tests run a few fixed sequences on small graphs.",
  [L+"adt/dag.rs"],
  [("edges", L+"adt/dag.rs: add_edge, remove_edge, is_reachable"), ("ranks", L+"adt/dag.rs: update_node_rank_level, recompute_node_ranks, compute_levels, level, add_element_to_rank")],
  ["the public methods of the structure"])
p("C11", "Optimizing ranks and edge crossings never makes a graph worse or invalid",
  "Optimizing the ranks keeps every edge pointing to a lower rank, keeps every node in exactly one rank, and never increases the sum of the lengths of the edges. Optimizing the crossings only reorders nodes inside their ranks, keeps all nodes and edges, and never increases the number of edge crossings. Both finish on every graph.",
  ["inputs"], "Every acyclic graph with ranks that respect the direction of the edges; for the crossings, every ranked graph, whatever the order inside the ranks.",
  "One test counts crossings of a fixed graph; the passes are heuristics with rollback whose bookkeeping fails only on particular graphs.",
  [L+"topo/optimizer.rs"],
  [("sinking", L+"topo/optimizer.rs: RankOptimizer::try_to_sink_node"), ("swapping with rollback", L+"topo/optimizer.rs: EdgeCrossOptimizer::optimize, num_crossing, swap_crossed_edges_on_row")],
  ["the ranks before and after"])
p("C12", "The scoped map returns the innermost value of every key",
  "After every history of opening and closing scopes and inserting pairs, looking up a key returns the latest value from the innermost open scope that has the key, and nothing when no open scope has it. The flattened map holds exactly those keys and values. Closing a scope restores the map as it was when the scope was opened.",
  ["histories"], "Every sequence of push, pop, insert, lookup and flatten, with any keys and values, including pops of an empty map.",
  "The tests run two fixed sequences.",
  [L+"adt/map.rs"],
  [("scopes", L+"adt/map.rs: push, pop, insert, get, flatten, has")],
  ["get, has, flatten, len, is_empty"])
p("C13", "The geometry helpers are exact for every input",
  "The box overlap test and the segment-box test give the geometric answer for every input. A connection point of a box lies on its outline and one of an ellipse lies on the ellipse, both on the side that faces the other end, with a control point at the requested distance toward it. A position keeps its size, center and margin consistent under every history of moves, alignments and transpositions; medians, padding and text measures are what their descriptions say.",
  ["inputs", "histories"], "Every finite coordinate and positive size in the drawing range, every direction, including vertical and horizontal lines, touching boxes and corners.",
  "One test samples six segments; the branches of these functions meet at boundaries that samples miss.",
  [L+"core/geometry.rs"],
  [("predicates", L+"core/geometry.rs: do_boxes_intersect, segment_rect_intersection, in_range"), ("connection points", L+"core/geometry.rs: get_connection_point_for_box, get_connection_point_for_circle, create_vector_of_length"), ("positions", L+"core/geometry.rs: Position"), ("medians and text", L+"core/geometry.rs: weighted_median, get_size_for_str")],
  ["the return values"])
p("C14", "Colors are read and written faithfully",
  "Every known color name gives its standard value, fully opaque; a color in the form #rrggbb gives that value, fully opaque, and #rrggbbaa gives that value with its transparency, in lower or upper case. A text that is neither a known name nor a number sign followed by hexadecimal digits is not a color, and is drawn black where a color is needed. Writing a color and reading it back gives the same color, for every color.",
  ["inputs"], "Every 32-bit color, every name, and every text.",
  "The test reads four colors.",
  [L+"core/color.rs"],
  [("reading", L+"core/color.rs: from_name, fast"), ("writing", L+"core/color.rs: to_web_color")],
  ["Color::from_name, Color::fast, Color::to_web_color"])
p("C15", "A left-to-right drawing is the mirror of the top-to-bottom drawing",
  "Drawing a graph from left to right places its nodes exactly where drawing it from top to bottom, with the width and the height of every node and label swapped, would place them with the two axes exchanged. The labels stay upright, and text and box keep their own width and height.",
  ["inputs", "configurations"], "Every graph, with any node sizes from 1 to 1000, with and without optimizations and placement; labelled edges, self edges and long edges.",
  "The tests draw both directions but never compare them.",
  [L+"topo/placer/place.rs", L+"topo/layout.rs", L+"core/geometry.rs"],
  [("transposition around the placement", L+"topo/placer/place.rs: layout"), ("sizes of labels", L+"std_shapes/shapes.rs: resize")],
  ["the boxes and texts that are drawn"])
p("C16", "The same document always gives the same drawing",
  "Parsing, building, laying out and drawing the same document gives the same output, byte for byte, in every run: it does not depend on the hashing seed of the process or on what was drawn before.",
  ["inputs", "configurations"], "Every document, every hash function that the process may draw at random.",
  "The tests run once per process and never compare two runs; an order taken from a hash table differs only between seeds.",
  [L+"gv/builder.rs", L+"topo/placer/bk.rs", L+"backends/svg.rs", L+"adt/map.rs"],
  [("order of nodes", L+"gv/builder.rs: node_order"), ("edge sets", L+"topo/placer/bk.rs: get_valid_edges"), ("font styles", L+"backends/svg.rs: emit_svg_font_styles")],
  ["the text of the SVG"])
p("C17", "Saving a file reports success only when everything was written",
  "Saving a drawing to a file returns success only when the file was created and every byte of the content was written to it, in order, and nothing else. Whenever creating or writing the file fails, the caller gets the error and nothing panics; short and interrupted writes are continued.",
  ["fault_sequences", "inputs"], "Every content and every sequence of results of the system calls: open failures, short writes, interrupted writes, full disks.",
  "No test saves a file, and no test can make the system calls fail on demand.",
  [L+"core/utils.rs"],
  [("writing", L+"core/utils.rs: save_to_file")],
  ["the result and the bytes that reach the system calls"])
p("C18", "A node is always large enough for its label",
  "The size that the builder gives to a node is at least the estimated size of its label in its font plus the padding of its shape, in both directions, for every label and every font size; circles of the double kind are round. The estimate is the length of the longest line by the number of lines, counted in characters, and an empty label counts as one character.",
  ["inputs"], "Every label (any characters, any number of lines), every font size from 1 to 10 million, every shape, both directions, records with nested fields.",
  "The tests never look at sizes.",
  [L+"std_shapes/render.rs", L+"core/geometry.rs", L+"gv/builder.rs"],
  [("sizes", L+"std_shapes/render.rs: get_shape_size, get_record_size; "+L+"core/geometry.rs: get_size_for_str, pad_shape_scalar, make_size_square")],
  ["get_shape_size, the boxes that are drawn"])

p("C19", "Nodes stand in rows across the direction of the graph, in the order of the edges",
  "In every drawing any two nodes are centered on one line across the direction of the graph, or one of them ends before the other begins. When the optimizations are turned off (the second argument of do_it), the row of a node is given by the longest chain of edges that leads to it: nodes with equally long chains share a row, and a node with a shorter chain stands entirely before one with a longer chain. An edge with a label counts as two, an edge which would close a cycle counts in the opposite direction, and self edges do not count.",
  ["inputs"], "Every graph, every size of the nodes, both directions, every setting of the layout.",
  "The tests never look at where the nodes are.",
  [L+"topo/layout.rs", L+"topo/placer/place.rs", L+"topo/placer/simple.rs", L+"adt/dag.rs"],
  [("ranks", L+"adt/dag.rs: recompute_node_ranks, update_node_rank_level; "+L+"topo/layout.rs: lower, to_valid_dag, split_text_edges"), ("rows", L+"topo/placer/simple.rs: assign_y_coordinates; "+L+"topo/placer/place.rs: layout")],
  ["draw_rect and draw_circle calls"])
p("C20", "Lines are led past the nodes, one bend for every row, and through their labels",
  "Every edge is drawn as one line, and every inner point that its line is led through lies outside of all nodes. Both ends and all of these points are inside the visible area, whose corner is the origin. Between its ends the line has at least one such point for every row of nodes that it crosses. The line of a self edge bends exactly once, beside its node. When the layout phase is turned off (the third argument of do_it), the points follow each other strictly in the direction from one end to the other. The line of an edge with a label has a point in the space of the label.",
  ["inputs"], "Every graph, every size of nodes and labels, both directions, every setting of the layout.",
  "The tests never look at the lines.",
  [L+"topo/layout.rs", L+"topo/placer/simple.rs", L+"topo/placer/edge_fixer.rs", L+"topo/placer/verifier.rs", L+"backends/svg.rs", L+"std_shapes/render.rs"],
  [("connectors", L+"topo/layout.rs: split_text_edges, split_long_edges, expand_self_edges"), ("moving the connectors", L+"topo/placer/edge_fixer.rs: do_it; "+L+"topo/placer/bk.rs"), ("lines", L+"std_shapes/render.rs: render_arrow, generate_curve_for_elements")],
  ["draw_arrow and draw_text calls"])

p("C21", "Colors, styles, heads and texts of the same size do not move anything",
  "Where everything is drawn depends only on the nodes, edges, sizes, direction and settings of the layout. Changing the colors, line widths, corners and additional properties of nodes and edges, the texts and fonts inside nodes of the same size, the letters of a label, the heads or the dash style of a line, or turning the debug mode on, leaves every shape, text and line exactly where it was, and nothing disappears.",
  ["inputs", "configurations"], "Every graph and every two appearances of it.",
  "It compares two drawings of every graph; the tests never compare drawings.",
  [L+"std_shapes/render.rs", L+"std_shapes/shapes.rs", L+"topo/layout.rs", L+"topo/placer/edge_fixer.rs", L+"topo/placer/bk.rs"],
  [("drawing", L+"std_shapes/render.rs: render, render_arrow"), ("placement", L+"topo/placer/place.rs: layout")],
  ["all draw calls"])

p("C22", "The command line tool writes the drawing of its input with its settings, or reports the error",
  "For every well-formed command line and every readable input file, the tool writes to the output file (the one given, or /tmp/out.svg) exactly the drawing that the library makes of the document with the given settings: --debug, --no-optz and --no-layout, each alone or together, in any order. When the document has an error, the error is reported and the output file stays as it was. When the output cannot be written the tool reports it and does not crash. No other file changes, and the tree is printed only with --ast.",
  ["inputs", "configurations", "fault_sequences"], "Every combination of the options in any order, every document, every sequence of results of the system calls that write the output.",
  "No test runs the tool.",
  ["src/bin/layout.rs", L+"core/utils.rs"],
  [("options and files", "src/bin/layout.rs: main, generate_svg"), ("writing", L+"core/utils.rs: save_to_file")],
  ["the files and the output of the process"])

NOTE = ("Bounded: holds for every value of the symbolic inputs within the bounds listed in checks/%s.conf and in the evidence file; nothing is claimed beyond them. "
        "Trusts rustc's lowering to LLVM IR, the semantics of the IR in the executor (each run replays a sample of its paths natively and compares), the decision procedure of Z3, and the oracle in harness/src/bin/%s.rs. %s")
props = open(os.path.join(V, "properties.jsonl"), "w")
checks, na = [], []
EXTRA = {}
for q in P:
    o = dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
             anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]], observe_at=q["observe"], hook_needed=None))
    props.write(json.dumps(o) + "\n")
    i = q["id"]
    if q["na"]:
        na.append(dict(property=i, reason=q["na"]))
    elif os.path.exists(os.path.join(V, "checks", i + ".conf")):
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the compiled code (LLVM IR) with Z3 deciding every branch and assertion; counterexamples replayed natively",
                           level="model_checking", level_note=(NOTE % (i, i.lower(), q["note"] or "")).strip()))
    else:
        na.append(dict(property=i, reason="the check is still being built"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="run.sh ID TIER regenerates the LLVM IR of the harness and of /repo/layout, explores it symbolically, and replays every counterexample against the native build.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
