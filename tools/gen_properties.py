#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

LIB, HTML, MAIN, INL, BLK, ATTR = "src/lib.rs", "src/html.rs", "src/main.rs", "src/inline.rs", "src/block.rs", "src/attr.rs"

prop("C01", "Short and interrupted writes never alter the output",
  "Rendering any document to a byte sink that accepts fewer bytes than offered, or is interrupted, any number of times still succeeds. The sink ends up with exactly the UTF-8 bytes that rendering the same events to a string gives, each byte once and in order.",
  ["fault_sequences", "inputs"], "every document, renderer configuration and sequence of short writes and EINTR, at every write of every event kind, through both the per-event and the all-events call",
  "The tests render to strings, and to one byte sink that always accepts everything; no test has a sink that accepts part of a buffer.",
  [LIB, HTML], [("write_event wraps the sink in an adapter that uses write_all", "src/lib.rs Render::write_event"), ("all output of an event goes through the adapter", "src/html.rs Renderer::render_event")],
  observe=["bytes received by the simulated sink", "return value of write_event / write_events"])

prop("C02", "A failing sink is reported with its own error after an exact prefix",
  "If the sink fails while any part of a document is rendered to it, the call returns an error: for byte sinks the sink's own error with its kind, OS error code and payload intact (or a write-zero error if it accepts no more bytes), for unicode sinks a formatting error. The bytes delivered until then are exactly the leading bytes of the fault-free output, nothing is written after the failure within that call, and success is returned only if everything was delivered. Printing an attribute set or value to a failing sink behaves likewise.",
  ["fault_sequences", "inputs"], "every document and configuration, every position (write call or byte offset) of the failure, every error kind, one-shot or permanent, after any benign short writes, for all four rendering calls",
  "No test uses a failing sink; each of the renderer's more than a hundred write sites could drop an error unnoticed.",
  [LIB, HTML], [("the adapter stores the sink's error and returns it instead of the formatting error", "src/lib.rs Render::write_event"), ("try_for_each stops at the first error", "src/lib.rs Render::push_events/write_events"), ("every write is followed by ?", "src/html.rs, Display and Debug in src/attr.rs")],
  [("WriteAdapter::error", "the sink's error until the event is finished", "src/lib.rs Render::write_event")],
  ["returned error: kind, raw_os_error, payload", "bytes and calls seen by the sink"])

prop("C03", "A failed or abandoned document neither runs away nor taints the next",
  "After rendering was cut short at any point - by a sink error, by a panic in the sink or in the event source, or because the caller stopped - the renderer can be used again: feeding it further events of the same document neither panics nor writes more than a bounded amount. The next document given to it is rendered exactly as a new renderer with the same options would render it, also after documents that were rendered completely.",
  ["histories", "fault_sequences", "inputs"], "every sequence of documents on one renderer, each completed, failed, abandoned or continued after the failure at any point",
  "Every test creates a new renderer for every document and never continues after an error.",
  [HTML, LIB], [("state is reset at Start(Document)", "src/html.rs Renderer::render_event"), ("the indentation depth saturates", "src/html.rs Renderer::block"), ("errors propagate before or after, never between, paired state changes", "src/html.rs Renderer::render_event")],
  [("depth, list_tightness, img_alt_text, raw, ignore, first_line", "position within the current document", "src/html.rs Renderer"), ("footnotes", "collected footnotes and references", "src/html.rs Footnotes")],
  ["output of the next document", "number of writes and bytes after an error", "panics"])

prop("C04", "Rendering is incremental: one event in, its output out",
  "The rendering calls take events from the source one at a time, each once, and only when all output of the preceding events has been handed to the sink. When the sink fails, the event being rendered is the last one taken, so that exactly the events after it are still in the source.",
  ["schedules", "fault_sequences", "inputs"], "every document, configuration and failure position; every source, including the parser itself, iterators over stored events and iterators that block",
  "Tests compare complete outputs; nothing observes when events are taken relative to when output appears, or what a failed call leaves in the source.",
  [LIB, HTML], [("try_for_each over the caller's iterator without adaptors that buffer", "src/lib.rs Render::push_events/write_events"), ("render_event writes directly to the sink", "src/html.rs")],
  observe=["position of the source at every pull and after a failure", "bytes in the sink at every pull"])

prop("C05", "How rendering is split into calls does not matter",
  "Rendering a document's events one by one or in batches of any sizes, through any mix of the string and byte-sink calls and with any change of sink between calls, produces in concatenation exactly the output of a single call. The output that an event causes goes to the sink passed with that event.",
  ["schedules", "histories", "inputs"], "every document and configuration, every partition of its events into calls of the four kinds, every assignment of sinks to calls, including empty batches",
  "The tests render each document with a single call.",
  [LIB, HTML], [("all state is in the renderer, none in the call", "src/html.rs Renderer"), ("both byte and unicode calls go through push_event", "src/lib.rs Render")],
  [("Renderer", "position in the document between calls", "src/html.rs")], ["contents of each sink after each call"])

prop("C06", "A parser can be suspended, cloned, moved and resumed at any event",
  "At any point of iteration a parser may be set aside, cloned, moved to another place or thread, turned into an offset iterator or dropped. The original and every clone each still yield exactly the remaining events, and as offset iterators the same spans, that an undisturbed parser of the same text yields, and they stay exhausted once they are.",
  ["histories", "schedules", "inputs"], "every document, every history of next/nth/fold/clone/convert/move/drop operations over any number of clones, in any interleaving",
  "Tests iterate a parser once from start to end; cloning half-way, the clone's independence and iteration past the end are never exercised.",
  [LIB, INL, BLK], [("derived Clone of all parser state", "src/lib.rs Parser, src/inline.rs Parser"), ("OffsetIter wraps the same next_span", "src/lib.rs OffsetIter")],
  [("blocks, inline_parser, block_attributes, table_head_row, verbatim", "position in the document", "src/lib.rs Parser"), ("events, openers, verbatim, attributes, store_*", "pending inline elements", "src/inline.rs Parser")],
  ["events and spans from each clone"])

prop("C07", "Documents processed concurrently or in succession are independent",
  "Any number of documents may be parsed and rendered at the same time, on one thread alternately or on several threads, sharing source text or clones of a parser, and after any number of others. Each gives exactly the result it gives when processed alone in a fresh process, no matter how their steps interleave and no matter how others fail, panic or are abandoned, and none can block another.",
  ["schedules", "fault_sequences", "histories", "inputs"], "every set of documents, every interleaving of their steps (down to the granularity of memory allocations), every fault in any of them, every history of earlier documents in the process",
  "The tests run each document by itself and compare with a fixed expectation; hidden sharing only shows under particular interleavings or histories.",
  [LIB, HTML, INL, BLK, ATTR], [("no global, thread-local or interior-mutable state in the crate", "src/*.rs"), ("Parser, Event and Renderer are Send", "src/lib.rs, src/html.rs")],
  observe=["result of each document against its result alone in a pristine process"])

prop("C08", "Nothing but the text and the options determines the result",
  "Parsing the same text with the same options always yields the same events, spans and rendered output. Hash seeds, clock, environment variables, locale, memory contents and addresses, the calling thread and its stack, and the crate's own choice between hash and tree maps have no influence.",
  ["configurations", "schedules", "inputs"], "every document under every environment: hash seeds, clock readings, getenv answers, heap layout and fill, string alignment, thread, and build with or without the 'deterministic' feature",
  "A test compares one process's result with an expectation; a dependence on iteration order or the environment shows in a fraction of processes only.",
  [LIB, HTML, "Cargo.toml"], [("maps are only accessed by key, except where sorted", "src/lib.rs PrePass, src/html.rs Footnotes"), ("feature deterministic selects BTreeMap", "src/lib.rs Map/Set")],
  [("link_definitions, heading id maps", "resolved references", "src/lib.rs PrePass"), ("footnotes.events", "footnote contents by label", "src/html.rs Footnotes")],
  ["events, spans and HTML across environments"])

prop("C09", "The command exits successfully only after delivering all output",
  "The jotdown command exits with status 0 only if every byte of the rendered document was accepted by standard output or the output file. If any write fails, whether in the middle, at the end or at the final flush, it exits with a non-zero status after printing a message to standard error, and whatever was written is a prefix of the output; short and interrupted writes alone never make it fail.",
  ["fault_sequences", "crash_points", "inputs", "configurations"], "every document and set of options, output to stdout or file, every sequence of short writes, EINTR, ENOSPC, EIO, EPIPE and the like at every write, failing open, failing memory allocation, and kill at every system call",
  "tests/cli.rs runs the command twice, fault-free.",
  [MAIN, LIB], [("the buffered writer is flushed and the error returned", "src/main.rs run"), ("errors lead to exit status 1", "src/main.rs main")],
  observe=["exit status, stderr and delivered bytes of the real binary on a simulated operating system"])

prop("C10", "The command leaves the output alone until it has read the input",
  "If the input cannot be read in full or is not valid UTF-8, or the process is killed before it has read everything, the jotdown command fails and does not create, truncate or write its output. In particular a file may be rendered onto itself.",
  ["crash_points", "fault_sequences", "inputs"], "every input (also invalid, torn and empty), every read error and kill position during input, every relation between input and output file",
  "tests/cli.rs has no failing input and no existing output file.",
  [MAIN], [("the content is read before the output is created", "src/main.rs run"), ("read_to_string validates UTF-8", "src/main.rs run")],
  observe=["output file before and after, system call order of the real binary on a simulated operating system"])

prop("C11", "How the input reaches the command makes no difference",
  "Given the same input bytes and options, the jotdown command delivers exactly the bytes that the library renders with those options, whether the input comes from a file or standard input, in pieces of any size that may split characters, with any interruptions, and whether the file's reported size is right or not.",
  ["schedules", "fault_sequences", "configurations", "inputs"], "every input, every splitting of it into reads, EINTR at any point, wrong size hints, every combination of the command's options, hash seed and clock",
  "tests/cli.rs covers one small document from a file with default options; a pipe delivers it in one piece.",
  [MAIN, LIB, HTML], [("read_to_string for both kinds of input", "src/main.rs run"), ("options map onto Renderer constructors", "src/main.rs run")],
  observe=["output bytes of the real binary against the library's"])

prop("C12", "Damaged stored text is handled without crash, hang or imbalance",
  "Text read back from storage that lost, repeated, reordered, zeroed, flipped or truncated any of its parts is either rejected as invalid UTF-8 by whoever reads it or, as far as it is valid or was repaired by replacement characters, parsed and rendered without panic, stack exhaustion or endless loop. The events stay balanced, with spans in range and on character boundaries, and number at most a fixed multiple of the text's length. Attribute sets read from such text are accepted or rejected with a position in it, without panic.",
  ["fault_sequences", "inputs"], "every document of up to some hundred kilobytes with at most a few hundred nested levels and some ten thousand special characters in a paragraph, with every sequence of storage faults (torn tail, bit flips, lost, stale, repeated, mirrored and swapped sectors) applied to it",
  "The tests parse intact examples; the fuzz targets in tests/afl are not run and know nothing of storage faults.",
  [LIB, INL, BLK, ATTR, "src/lex.rs", HTML], [("unclosed elements are closed or dropped at the end", "src/block.rs, src/inline.rs"), ("lines are fed iteratively", "src/lib.rs Parser::block")],
  observe=["panics, stack overflow, event count, nesting, spans"])

prop("C13", "Events can be owned, queued, split and rendered later elsewhere",
  "Events may be cloned, converted to owned data, queued for any time, sent to another thread, outlive the source text and have their text events split into pieces before they are rendered. The rendered output stays the same as rendering the parser's events directly.",
  ["schedules", "histories", "inputs"], "every document and configuration, every queue capacity and delay between producer and consumer on one or two threads, every subset of events copied, owned or split at any character boundary",
  "Tests pass the parser directly to the renderer.",
  [LIB, HTML], [("events carry all information, compare by value and hold Cow strings", "src/lib.rs Event, Container, Attributes"), ("the renderer copies what it keeps", "src/html.rs Footnotes")],
  observe=["output against direct rendering"])

prop("C14", "No history and no fault leaks memory",
  "Once the parser, its clones, the events and the renderer of a document are dropped, all memory they used is free again, also when rendering failed, panicked or was abandoned at any point. Sinks and event sources handed over by value are dropped. Repeating any such history does not make the process grow.",
  ["histories", "fault_sequences", "inputs"], "every document and every history of complete, cloned, failed, panicked and abandoned parsing and rendering",
  "No test measures memory.",
  [LIB, HTML, INL, BLK, ATTR], [("plain ownership, no caches, no reference cycles", "src/*.rs")],
  observe=["live bytes in the simulated allocator after each repetition"])

prop("C15", "Every renderer gets the same guarantees from the Render trait",
  "For any renderer that only implements push_event, the provided methods of Render pass each event to it exactly once, in order, and none behind the first that fails. What it writes, as strings, characters or formatted, reaches a byte sink as the same UTF-8 text. The methods return an error exactly if the renderer did, and it is the sink's own error if the sink failed, also if the renderer writes on afterwards, and some other error if the renderer failed by itself.",
  ["fault_sequences", "inputs"], "every renderer, with any writes per event and failures of its own, alone or around the HTML renderer, every event sequence, and every short write, interruption and failure of the sink",
  "The only renderer in the tests is the HTML one, which never fails by itself and never writes a character outside ASCII alone, to a sink that never fails.",
  [LIB], [("write_event adapts a byte sink and keeps its error", "src/lib.rs Render::write_event"), ("try_for_each over the events", "src/lib.rs Render::push_events/write_events")],
  [("WriteAdapter::error", "the sink's error until the event is finished", "src/lib.rs Render::write_event")],
  ["events seen by the renderer", "bytes received by the sink", "returned error"])

prop("C16", "Lost, repeated or exchanged events affect only their own output",
  "If events other than footnotes and references to them are lost, repeated or exchanged with others in the same place between the parser and the renderer, be it single text events or whole elements, all behind the document's first element, then rendering still succeeds and exactly their own output is missing, repeated or exchanged: every other event still causes exactly the output that it causes in the undisturbed document.",
  ["fault_sequences", "inputs"], "every document and configuration, every sequence of losses, repetitions and exchanges of whole elements and of events without contents outside footnotes, for the string and the byte-sink calls",
  "The tests render exactly what the parser yields; hidden dependencies of one event's output on its neighbours stay invisible, as they always see the same neighbours.",
  [HTML, LIB], [("output depends on the event, the open elements and the footnotes only", "src/html.rs Renderer::render_event")],
  [("depth, list_tightness, img_alt_text, raw", "what depends on the open elements", "src/html.rs Renderer"), ("first_line", "whether anything was rendered yet", "src/html.rs Renderer")],
  ["output against the pieces of the undisturbed output"])

prop("C17", "Memory is bounded, and running out of it never yields a wrong result",
  "Parsing and rendering a text need at most a fixed multiple of the length of the text and of its output in memory. If memory runs out, at any allocation, once or for good, the process is aborted, panics or reports a failure, and what was delivered until then are the leading bytes of the output (or the first events). It never carries on to an incomplete or different result, be it rendered output, events, spans or attributes.",
  ["fault_sequences", "inputs"], "every document with at most a few hundred nested levels, every allocation that may fail, once, permanently, by size or by quota, for rendering to all kinds of sinks, parsing, cloning and reading attributes",
  "Allocations never fail in tests, and small examples need little memory no matter how it grows.",
  [LIB, BLK, INL, ATTR, HTML], [("collections grow through the infallible interface of alloc, which aborts", "src/*.rs Vec, String, HashMap"), ("each source byte makes a bounded number of events and spans", "src/block.rs, src/inline.rs")],
  [("events, blocks and spans", "the parser's block tree and inline queue", "src/block.rs TreeParser, src/inline.rs Parser"), ("footnotes", "events kept until the end of the document", "src/html.rs Footnotes")],
  ["bytes delivered before the end", "how the process ended", "peak of live bytes"])

prop("C18", "Damage to a stored text stays within its parts",
  "If storage loses, repeats, exchanges or replaces whole parts of a text that are separated by thematic breaks standing by themselves, every other part still yields the same events, with spans moved accordingly. Only what is looked up by label across parts may differ: targets and attributes of reference links, automatic heading ids, and the sections around. If the tail of a text is lost at any point, the blocks in front keep their events likewise: all top-level blocks but the last two of what remains.",
  ["fault_sequences", "histories", "inputs"], "every sequence of parts, every loss, repetition, exchange, tear or replacement of parts, every point at which the tail is lost",
  "Tests parse small texts with one construct each and compare them with fixed events; what the parser carries from one block into the next, or takes from the rest of the text, stays invisible.",
  [BLK, INL, LIB], [("the inline parser is reset at every leaf block", "src/lib.rs Parser::block, src/inline.rs Parser::reset"), ("lists and tables keep their state on stacks of open blocks", "src/block.rs TreeParser")],
  [("open_lists, alignments, prev_blankline, prev_loose", "what the block parser remembers", "src/block.rs TreeParser"), ("attributes, openers, events", "what the inline parser remembers", "src/inline.rs Parser"), ("block_attributes, table_head_row, verbatim", "what is pending between blocks", "src/lib.rs Parser")],
  ["events and spans of each part against those of the part alone", "events in front of the cut against those of the whole text"])

prop("C19", "A small stack suffices however long the text is",
  "Parsing, iterating, cloning, suspending, rendering and dropping take an amount of stack that is bounded by a fixed amount (64 KiB) plus a fixed amount (8 KiB) per level of nested blocks, no matter how long the text is, how many blocks, inlines, attributes, definitions or footnotes it has, where iteration stops or how the sink fails. Documents that are not nested deeply thus work on threads with small stacks, also in builds without optimisation.",
  ["fault_sequences", "inputs", "configurations"], "every document with at most a few hundred nested blocks, every way to parse, clone, render, abandon and drop it, every failure of the sink, on a thread with little stack",
  "Tests run small texts on large stacks, where recursion per line, event or element does no harm.",
  [LIB, BLK, INL, ATTR, HTML], [("loops instead of recursion over lines, siblings, events and footnotes", "src/block.rs TreeParser, src/inline.rs Parser::next, src/lib.rs Parser::block, src/html.rs"), ("recursion per nested block only", "src/block.rs parse_block, parse_container")],
  [("frames per nested block", "parse_block and parse_container call each other", "src/block.rs TreeParser")],
  ["high-water mark of the painted stack", "stack overflow"])

PURE = "a pure function of its input: no schedule, clock, I/O, fault or interleaving takes part, so a simulator has nothing to decide; deciding it means generating inputs or proving, which is another family of technique"
def pure(id, title, statement, over, text, why, files, mech, observe=()):
    prop(id, title, statement, over, text, why, files, mech, observe=observe)
pure("P01", "Parsing and rendering terminate normally for every text",
  "For every UTF-8 string, parsing it and rendering the events completes without panic, abort or endless loop.",
  ["inputs"], "every UTF-8 string, including unlimited nesting depth", "A sample of examples cannot cover all strings.", [LIB, INL, BLK, ATTR, HTML], [("every state has a default transition", "src/*.rs")])
pure("P02", "Container events are balanced and correctly nested",
  "For every text, every start event is followed by its matching end event, containers nest properly, the document container encloses everything, blocks never occur inside inline containers, and containers only hold the kinds of children their documentation allows.",
  ["inputs"], "every text", "Tests check the exact events of examples.", [LIB, BLK, INL], [("tree building with enter/exit pairs", "src/block.rs")])
pure("P03", "Event spans locate events in the source",
  "For every text, the spans of the offset iterator lie within the text on character boundaries, and for text events equal the emitted string.",
  ["inputs"], "every text", "Tests check the spans of some examples.", [LIB, INL, BLK], [("spans are carried from the lexer", "src/lib.rs next_span")])
pure("P04", "Text cannot inject markup into the HTML output",
  "Outside explicit raw HTML elements, no character of the source appears in the output as markup: <, >, & and, in attribute values, quotes are escaped, and tags in the output are balanced.",
  ["inputs"], "every text without raw HTML elements", "Tests escape a handful of strings.", [HTML], [("write_escape", "src/html.rs")])
pure("P05", "References and footnotes resolve by label, numbered in order",
  "Reference links resolve to the definition with the normalised label wherever it stands, footnotes are numbered by first reference, and each referenced footnote is rendered once with a link back.",
  ["inputs"], "every text", "Tests cover a few arrangements of labels.", [LIB, HTML], [("PrePass", "src/lib.rs"), ("Footnotes", "src/html.rs")])
pure("P06", "Automatic heading ids are unique",
  "Automatically generated heading ids are distinct from each other and from explicitly given ones, and implicit heading references lead to the id their heading carries.",
  ["inputs"], "every text", "Tests cover a few headings.", [LIB], [("PrePass::new numbers colliding ids", "src/lib.rs")])
pure("P07", "Attribute sets follow djot's merge rules",
  "In any sequence of operations on an attribute set, classes accumulate, for other keys the last value wins while order and sources are kept, and printing and parsing an attribute set round-trips.",
  ["inputs", "histories"], "every attribute text and sequence of set operations", "Tests cover a few attribute strings.", [ATTR], [("Attributes", "src/attr.rs")])
pure("P08", "Formatting options only change white space",
  "The minified, default and indented renderings of any document differ only in white space between elements.",
  ["inputs", "configurations"], "every text and option", "Tests cover some documents per option.", [HTML], [("block and indent", "src/html.rs")])
pure("P09", "Time and memory are linear in the length of the text",
  "Parsing and rendering take time and memory bounded by a constant times the length of text and output.",
  ["inputs"], "every text", "Tests do not measure.", [LIB, INL, BLK], [("single pass over blocks; the search for an inline opener is quadratic in a paragraph's openers in fact", "src/*.rs")])
pure("P10", "The syntax is that of the djot reference implementation",
  "For every text, the rendered HTML equals that of the djot reference implementation, apart from documented differences.",
  ["inputs"], "every text", "The reference test suite is a sample.", [LIB, HTML, BLK, INL], [("the whole parser", "src/*.rs")])
pure("P11", "Strings in parser events are borrowed and never empty",
  "Text events from the parser are non-empty slices of the source, without copying.",
  ["inputs"], "every text", "Tests compare by value.", [LIB, INL], [("Event::Str(self.src[span].into())", "src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
