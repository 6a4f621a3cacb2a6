"""writes /verif/properties.jsonl (kept as code so the long texts stay readable)"""
import json, os
L = "crates/lsp-server/src/"
A = "crates/analyzer/src/"
D = A + "analysis/"
I = "crates/ir/src/"


def m(name, where):
    return {"name": name, "where": where}


PROPS = [
 ("P01", "Every request gets exactly one response, with its own id and outcome",
  "For every sequence of client messages, each request other than shutdown is answered with exactly one response that carries that request's id, before the server goes on to the next message. The response is the handler's result, or the error class that fits what went wrong (unknown method, undecodable parameters, handler failure); a command carried out as a workspace edit is answered with null together with one edit request. Notifications and client responses never produce a response, and the server stops serving only on shutdown, exit, a closed or failed transport, or an undecodable notification.",
  ["inputs", "histories"], "every message sequence, method name, id and parameter value",
  "Tests send a handful of well-formed requests; the property is about every method, every malformed parameter value and every interleaving of requests, notifications and responses.",
  [L + "dispatch.rs", L + "dispatch/routers/request.rs", L + "dispatch/routers/notification.rs"],
  [m("main loop and dispatcher", L + "dispatch.rs"), m("request router", L + "dispatch/routers/request.rs")]),
 ("P02", "Advertised capabilities, routed methods and analyses agree",
  "Every feature the server advertises at initialization is served: the method behind each advertised provider, every advertised command and every subscribed document notification reaches a handler, and each handler answers from the analysis of that very feature for the requested document at the requested position. Nothing is advertised that is not served, and requests for documents the server does not hold are answered with an empty result rather than another document's.",
  ["inputs", "configurations"], "every client capability set, every routed method, every document uri",
  "Each test exercises one method against one document; none relates the initialize result to the set of served methods and commands.",
  [L + "initialize.rs", L + "dispatch.rs", L + "dispatch/handlers/request.rs", D[:-1] + ".rs"],
  [m("server capabilities", L + "initialize.rs"), m("routing table", L + "dispatch.rs"), m("request handlers", L + "dispatch/handlers/request.rs")]),
 ("P03", "The server's view of documents mirrors the client's notifications",
  "After any sequence of open, change and close notifications, the text and version the server analyzes for a document are those of the last notification the client sent for it, only Rust documents are tracked, and a closed document is forgotten. Every open, change or close of a tracked document is followed by exactly one diagnostics publication for that document, carrying the diagnostics and version of that text (and none once it is closed).",
  ["histories", "inputs"], "every history of open/change/close notifications over any number of documents",
  "Unit tests apply one notification to a fresh store; the property is about all histories, repeated versions, empty change lists and several documents.",
  [L + "memory.rs", L + "dispatch/handlers/notification.rs", L + "dispatch.rs", L + "dispatch/actions.rs"],
  [m("document store", L + "memory.rs"), m("notification handlers", L + "dispatch/handlers/notification.rs"), m("change processing", L + "dispatch.rs"), m("diagnostics publication", L + "dispatch/actions.rs")]),
 ("P04", "Positions are translated in the negotiated encoding, both ways",
  "The position encoding announced to the client is the one used for every position, range and label offset the server receives or sends, and translating a position to a text offset and back is consistent for that encoding. A position past the end of its line means the end of that line; positions that do not exist in the document (no such line, or inside a multi-byte character) are rejected, never mapped to some other place. Results whose range cannot be translated are dropped rather than misplaced.",
  ["inputs", "configurations"], "every document text, position and client encoding preference",
  "Tests use one fixture with a few valid positions; the property is about every text, every out-of-range position and all three encodings.",
  [L + "translator.rs", L + "translator/from_lsp.rs", L + "translator/to_lsp.rs", L + "utils.rs"],
  [m("position to offset", L + "translator/from_lsp.rs"), m("offset to position", L + "translator/to_lsp.rs"), m("encoding negotiation", L + "utils.rs")]),
 ("P05", "No client input or source text can panic the analyzer or the server",
  "No source text, however malformed, and no client message, however wrong its positions, ranges, ids or arguments, makes the analyzer or the language server panic: every operation that can panic (indexing, slicing, unwrapping, arithmetic, constructing ranges, tree lookups by offset) is guarded so that it cannot fail on the values that reach it.",
  ["inputs"], "every source text, offset, range and client message",
  "Tests feed mostly well-formed contracts and valid offsets; a panic needs an input nobody thought of.",
  [L[:-1], A[:-1], I[:-1]],
  [m("panicking operations", "crates/*/src"), m("position validation", L + "translator/from_lsp.rs"), m("command argument parsing", L + "dispatch/handlers/request.rs")]),
 ("P06", "Results are a deterministic function of the text, version and position",
  "Analyzing the same text with the same language version and position gives the same result, in the same order, every time: no result depends on hash iteration order, time, randomness, environment, mutable global state or the order in which features are queried. A query never changes what a later query on the same document returns.",
  ["inputs", "histories"], "every text, every sequence of queries and every process run",
  "A test runs once per process and compares against one expected list, so it cannot see order that varies between runs or state left over between queries.",
  [A[:-1], I[:-1], L[:-1]],
  [m("collections whose iteration order reaches results", A[:-1]), m("global state", "crates/*/src")]),
 ("P07", "Every analysis honours the language version it was created for",
  "Each query on an analysis uses the language version the analysis was created with, unchanged, all the way down: no step substitutes a fixed version, swaps versions or ignores the version where the two language versions differ. A document's version is the one guessed from its project's manifest (version 4 when it cannot be determined), and it is kept until the document is closed or a migration asks for it to be determined anew.",
  ["inputs", "configurations"], "every query, every version and every manifest",
  "Tests pass an explicit version to each inner function and so cannot see a caller that passes the wrong one.",
  [D[:-1] + ".rs", D[:-1], L + "dispatch.rs"],
  [m("version threading", D[:-1]), m("version detection", L + "dispatch.rs")]),
 ("P08", "Suggestions are valid for the language version and the place they are made",
  "The tables of which attributes and arguments may appear together, inside which scope, and on which kind of item agree with each other and with the language version: everything suggested for a version exists in that version, companionship is mutual (an argument offered beside a second one also admits the first), a primary attribute suggested for an argument accepts that argument, suggestion lists hold no duplicates, whatever a scope admits can be placed on some item, and filters only ever remove suggestions that are duplicate, conflicting or out of scope.",
  ["inputs", "configurations"], "every attribute kind, argument kind, syntax kind and version",
  "The tables have hundreds of cells; tests look at a few rows and never at two tables together.",
  [D + "utils.rs", I + "attrs/args.rs", I + "macros.rs"],
  [m("validity tables and suggestion filters", D + "utils.rs")]),
 ("P09", "Attributes and arguments are recognised exactly and named consistently",
  "Every ink! attribute macro and argument name in source text is recognised as exactly the kind it names, names of different kinds never collide, unknown names are classified as unknown, and the name a kind is displayed with is the name it is recognised by. Argument parsing preserves every name, value, separator and nesting in source order, values are classified by their syntax (string, integer in any base, boolean, path, wildcard, at-symbol), and an attribute's kind is that of its highest-priority argument.",
  ["inputs"], "every attribute text and every argument kind",
  "Tests try a list of sample attributes; the property covers every kind and every token sequence.",
  [I + "attrs.rs", I + "attrs/args.rs", I + "attrs/meta.rs", I + "attrs/parser.rs", I + "macros.rs"],
  [m("kind tables", I + "attrs/args.rs"), m("meta parser", I + "attrs/parser.rs"), m("attribute classification", I + "attrs.rs")]),
 ("P10", "The entity model finds every ink! entity, once, in its own scope",
  "For every source text, each ink! entity (contract, storage, event, constructor, message, chain extension, trait definition, impl, topic, storage item, tests, environment, selector) is found by its attribute, exactly once, as a child of the innermost ink! scope that encloses it, and nothing that lacks the attribute or has the wrong item kind is reported as one. Ancestor, descendant and offset lookups agree with the nesting of the syntax tree, and selectors, flags and configured values of an entity are read from its own attributes.",
  ["inputs"], "every source text and nesting of items",
  "Tests use small fixtures with one entity of each kind; the property is about arbitrary nesting, repetition and incomplete code.",
  [I + "tree.rs", I + "tree/utils.rs", I + "tree/ink_tree.rs", I + "tree/item_at_offset.rs", I + "tree/ast_ext.rs", I + "traits.rs", I + "iter.rs", I + "ink_impl.rs", I + "selector.rs"],
  [m("tree traversal", I + "tree/utils.rs"), m("entity casting", I + "traits/entity.rs"), m("entity accessors", I[:-1])]),
 ("P11", "Every ink! rule is enforced on every entity it applies to",
  "For every source text and language version, each semantic rule of ink! (required and forbidden attributes, items, fields, visibility, receivers, generics, selectors, SCALE encoding, cardinality, nesting) produces a diagnostic on every entity that breaks it and none on entities that respect it, with the severity, range and quickfix belonging to that rule. All entity kinds, at every nesting level, are checked, and a diagnostic found by any check reaches the result.",
  ["inputs", "configurations"], "every contract text and version",
  "Tests check each rule on a few fixtures; the property is about every combination of attributes, items and nesting.",
  [D + "diagnostics.rs", D + "diagnostics/common.rs", D + "diagnostics/contract.rs"],
  [m("diagnostics entry point", D + "diagnostics.rs"), m("shared rules", D + "diagnostics/common.rs"), m("entity rules", D + "diagnostics")]),
 ("P12", "The server only uses features the client declared it supports",
  "Whatever capabilities a client declares or omits, the server uses snippets, lazily resolved code action edits, label offsets, active parameters, file creation and code action kinds only if the client declared support for them, treats a missing declaration as no support, and otherwise falls back to the plain equivalent that carries the same content.",
  ["configurations"], "every client capability set",
  "Tests use a few hand-written capability sets; the property is about every subset of declared capabilities.",
  [L + "utils.rs", L + "translator/to_lsp.rs", L + "dispatch.rs", L + "initialize.rs"],
  [m("capability predicates", L + "utils.rs"), m("translation to LSP", L + "translator/to_lsp.rs")]),
 ("P13", "The server never modifies the client's files or machine by itself",
  "No message makes the server create, change, rename or delete a file, start a process, open a network connection or change its environment: it only reads project manifests, and every change it proposes is returned or sent as an edit for the client to apply.",
  ["inputs", "histories"], "every client message sequence",
  "Absence of an effect on all paths cannot be shown by running some of them.",
  [L[:-1], A[:-1], I[:-1]],
  [m("filesystem access", L + "dispatch/handlers/command.rs"), m("manifest lookup", L + "utils.rs")]),
 ("P14", "Every analysis terminates on every input",
  "For every source text and position, each query finishes: every loop and recursion in the analyzer consumes something finite (a token, a node, an ancestor, a list element, a bounded counter) on each turn, so no text can make it loop forever.",
  ["inputs"], "every source text and position",
  "A test can only show that the inputs it tried finished.",
  [A[:-1], I[:-1], L[:-1]],
  [m("recursive functions", I + "tree"), m("loops over tokens", D + "utils.rs")]),
 ("P15", "Commands compute complete, correct project edits",
  "The create, migrate and extract commands accept exactly their documented arguments, fail with an error (never partially) when an argument, document, manifest or package name is missing or invalid, and otherwise propose all their edits together: every file and edit they compute is part of the answer, under the right document, and the same edits whether obtained by executing the command or by resolving the code action. Manifest edits change only the entries that the command is about and keep everything else.",
  ["inputs", "configurations"], "every argument value, project layout and manifest",
  "Tests run each command on one project; the property is about every argument shape, directory layout and manifest style.",
  [L + "dispatch/handlers/command.rs", L + "dispatch/handlers/request.rs", L + "dispatch.rs", L + "utils.rs"],
  [m("commands", L + "dispatch/handlers/command.rs"), m("argument parsing", L + "dispatch/handlers/request.rs"), m("workspace edits", L + "dispatch.rs")]),
 ("P16", "Migration reaches and rewrites every construct that changed in ink! 5",
  "Migrating a version 4 file proposes an edit for every construct that version 5 changed, wherever it is nested (inside any expression, block, closure, condition, guard, loop or argument), in source order and without touching anything else. Each rewrite keeps the arguments, names and values of what it replaces.",
  ["inputs"], "every source text",
  "Tests migrate flat snippets; the property covers every expression nesting and attribute combination.",
  [D + "migrate.rs", D + "migrate/traversal.rs", D + "migrate/e2e_test.rs", D + "migrate/host_fn.rs"],
  [m("migration rules", D + "migrate.rs"), m("expression traversal", D + "migrate/traversal.rs")]),
 ("P17", "Proposed edits are formatted for, and confined to, their place",
  "Every edit proposed as a completion, code action or quickfix is passed through the formatting step that fits it to the surrounding whitespace, indentation and separators, formatting never changes which text is replaced beyond adjacent whitespace, and an edit's snippet form inserts the same construct as its plain form. Insert positions and ranges always lie inside the item they are computed for.",
  ["inputs"], "every source text and every proposed edit",
  "Tests compare a few formatted edits; the property covers every surrounding token and indentation.",
  [D + "text_edit.rs", D + "text_edit/common.rs", D + "utils.rs", A + "codegen/snippets.rs"],
  [m("edit formatting", D + "text_edit.rs"), m("edit builders", D + "text_edit/common.rs"), m("insert positions", D + "utils.rs")]),
 ("P18", "Completions offer exactly the valid attributes, arguments and entities",
  "At every position, completions offer every attribute macro, argument and entity that is valid there for the language version and not already present or in conflict, and nothing else; each replaces exactly the partial name under the cursor, and none is offered where ink! code cannot appear.",
  ["inputs", "configurations"], "every source text, cursor position and version",
  "Tests place the cursor at some fixture positions; the property is about every position in every text.",
  [D + "completions.rs", D + "utils.rs"],
  [m("completions", D + "completions.rs"), m("suggestion filters", D + "utils.rs")]),
 ("P19", "Code actions offer exactly the applicable additions for the focused item",
  "For every selection, code actions offer the attributes, arguments and entities that can be added to the focused item or attribute, each at its correct insert position, labelled for what it does and given names and ids its scope does not use yet, and nothing when the item does not admit them (already present, wrong kind, wrong scope, wrong version). Quickfixes of overlapping diagnostics come first, no two actions make the same edits, and migration or extraction is offered only where it applies.",
  ["inputs", "configurations"], "every source text, selection and version",
  "Tests select a few fixture places; the property is about every selection in every text.",
  [D + "actions.rs", D + "actions/attr.rs", D + "actions/entity.rs", D + "actions/item.rs", D[:-1] + ".rs"],
  [m("action entry point", D + "actions.rs"), m("item actions", D + "actions/item.rs"), m("entity actions", D + "actions/entity.rs")]),
 ("P20", "Hover, inlay hints and signature help describe the attribute at hand",
  "Hover text, inlay hints and signature help describe the attribute or argument they are shown for, in the language version in use: each is attached to that attribute's or argument's own range, is given for every recognised attribute and argument in the requested range, and is absent elsewhere. Signature help lists exactly the arguments valid at the cursor with the active one marked.",
  ["inputs", "configurations"], "every source text, position or range, and version",
  "Tests query a few positions; the property is about every position and every argument kind.",
  [D + "hover.rs", D + "hover/args.rs", D + "hover/macros.rs", D + "inlay_hints.rs", D + "signature_help.rs"],
  [m("hover", D + "hover.rs"), m("inlay hints", D + "inlay_hints.rs"), m("signature help", D + "signature_help.rs")]),
 ("P21", "Extraction and project generation produce self-contained, valid packages",
  "Extracting an event moves exactly that event, with the imports it needs, into a new package and leaves a contract that imports it; extraction is refused for anything that is not an extractable event. Generating a project accepts exactly valid project names and substitutes the name everywhere it belongs.",
  ["inputs"], "every source text, selection and project name",
  "Tests extract a few fixture events and create one project; the property is about every text and name.",
  [D + "extract.rs", A + "codegen.rs", A + "codegen/snippets.rs", A + "resolution.rs"],
  [m("extraction", D + "extract.rs"), m("project generation", A + "codegen.rs")]),
 ("P22", "Paths and types resolve to the crate and item they name",
  "A path or type in source text is taken to refer to an ink! or SCALE item exactly when it names it, directly, through a local alias or re-export, or through an import in scope (renamed, grouped or globbed), and not when the names differ. Local items are found by name only in the scopes visible from the place of use. A full path offered for an item goes from the crate root through its enclosing modules, outermost first, to the item.",
  ["inputs"], "every source text, import style and path",
  "Tests resolve some sample paths; the property is about every import shape and scope nesting.",
  [A + "resolution.rs", I + "tree/ast_ext.rs"],
  [m("path resolution", A + "resolution.rs")]),
 ("P30", "Selector values equal the BLAKE-2b hash ink! itself computes",
  "For every callable, the selector the analyzer compares for overlap equals the value the ink! compiler derives from the callable's name, trait and namespace.",
  ["inputs"], "every callable name and namespace", "Tests compare a few published selectors.",
  [I + "selector.rs"], [m("selector composition", I + "selector.rs")]),
 ("P31", "Edits of one answer never overlap and apply cleanly",
  "For every text, the edits of one action, completion or migration have disjoint ranges, so a client can apply them together.",
  ["inputs"], "every text and answer", "Tests apply a few edits.", [D + "text_edit.rs"], [m("edits", D + "text_edit.rs")]),
 ("P32", "Migrated and generated code compiles under ink! 5",
  "A contract that compiles under version 4 compiles under version 5 after the proposed migration edits, and a freshly generated project compiles.",
  ["programs"], "every contract", "No test compiles the result.", [D + "migrate.rs", A + "codegen.rs"], [m("migration", D + "migrate.rs")]),
 ("P33", "Queries answer within interactive latency",
  "On documents of realistic size every query answers fast enough for interactive use.",
  ["inputs"], "every document up to a realistic size", "No test measures time.", [A[:-1]], [m("analysis", A[:-1])]),
]


def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for pid, title, st, over, qt, why, files, mech in PROPS:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
                                "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech}}) + "\n")


if __name__ == "__main__":
    main()
