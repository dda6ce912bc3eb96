//! The properties that are decided, how many runs each tier gets, and what to say about them.

use crate::engine::{Info, Prop};
use crate::{cli, scen_ext, scen_lib, scen_mem, scen_sink, scen_stack, scen_text, sessions};

const LIB: &str = "jotdown library built from /repo's working tree: Parser, OffsetIter, html::Renderer, Render";
const STD: &str = "std adapters between renderer and device (BufWriter, LineWriter, dyn Write)";
const SINK: &str = "output device: a simulated sink that accepts, shortens, interrupts, refuses or panics as the plan says";
const HEAP: &str = "heap: simulated allocator at fixed addresses with poisoned fresh and freed memory";
const OS: &str = "getrandom, clock_gettime, getenv and futex waits: simulated";
const CMD: &str = "the jotdown command built from /repo's working tree, unmodified, with the real C library, std and clap";
const SIMOS: &str = "operating system calls of the command (open, read, write, stat, lseek, getrandom, clock, malloc, process death): simulated by a preloaded library, with files in a scratch directory behind it";
const A_CLI: &str = "the command reaches the operating system through the C library's dynamic symbols";
const A_SEED: &str = "pseudo-random search: histories that no seed reached are not covered";
const A_BASE: &str = "the fault-free result of the same build is the reference; documents on which fault-free rendering itself panics are skipped and counted";

macro_rules! p {
    ($id:literal, $run:expr, $batch:literal, $quick:literal, $thorough:literal, $zyg:literal, $rule:literal, $state:literal, [$($real:expr),*], [$($stub:expr),*], [$($as:expr),*]) => {
        Prop {
            id: $id,
            run: $run,
            batch: $batch,
            quick: $quick,
            thorough: $thorough,
            zygote: $zyg,
            info: Info {
                rule: $rule,
                state_measure: $state,
                real: &[$($real),*],
                stub: &[$($stub),*],
                assumptions: &[$($as),*],
            },
        }
    };
}

pub fn props() -> Vec<Prop> {
    vec![
        p!("C01", scen_sink::c01, 100, 120000, 4000000, false,
            "a run is non-trivial if at least one write was cut short or interrupted; distinct by hash of document, options, call used and fault plan",
            "distinct combinations of call, sink behaviour and order of magnitude of short and interrupted writes",
            [LIB, STD], [SINK, HEAP, OS], [A_SEED, A_BASE]),
        p!("C02", scen_sink::c02, 50, 6000, 60000, false,
            "a run is non-trivial if an injected failure was hit; distinct by hash of document output, options, errors and delivered lengths",
            "distinct pairs of output context at the failure point (11 bytes around it, digits folded) and error kind",
            [LIB, STD], [SINK, HEAP, OS], [A_SEED, A_BASE]),
        p!("C03", scen_sink::c03, 100, 160000, 3500000, false,
            "a run is non-trivial if a complete document was rendered on a renderer that was used before; distinct by hash of documents, options",
            "distinct pairs of output context at the failure point and kind of failure and continuation",
            [LIB], [SINK, HEAP, OS, "event source: replays the parser's events, panics or stops on command"], [A_SEED, A_BASE]),
        p!("C04", scen_sink::c04, 100, 120000, 4000000, false,
            "a run is non-trivial if the sink failed or the source paused within the document; distinct by hash of document, options, delivered bytes and events taken",
            "distinct pairs of output context at the failure point and call used",
            [LIB], [SINK, HEAP, OS, "event source: watches each pull"], [A_SEED, A_BASE]),
        p!("C05", scen_sink::c05, 100, 120000, 4000000, false,
            "a run is non-trivial if the document was split into at least two calls; distinct by hash of document, options and partition",
            "distinct partitions (hash of the sequence of call kind, size and sink)",
            [LIB], [SINK, HEAP, OS], [A_SEED, A_BASE]),
        p!("C06", scen_lib::c06, 100, 300000, 5000000, false,
            "a run is non-trivial if a parser was cloned or converted strictly inside the document; distinct by hash of document and operations",
            "distinct pairs of event kinds before and after the point of cloning",
            [LIB], [HEAP, OS], [A_SEED, A_BASE]),
        p!("C07", sessions::c07, 25, 50000, 900000, true,
            "every run has at least two documents in flight or in succession; distinct by hash of documents, options and schedule",
            "distinct schedules (hash of the sequence of thread switches with the preemption points they happened at)",
            [LIB, "real threads, released one at a time"], [SINK, HEAP, OS, "thread scheduler: every allocation in the library, sink call and futex wait is a possible switch"], [A_SEED, A_BASE, "preemption happens at allocations, sink and source calls and blocking waits, not between single instructions; the crate has no unsafe code or atomics"]),
        p!("C08", scen_lib::c08, 50, 50000, 700000, false,
            "every run processes the document in at least one environment different from the reference; distinct by hash of document, options and environments",
            "distinct pairs of environment dimensions varied and event kinds in the document",
            [LIB, "a second build of the library with feature deterministic"], [HEAP, OS], [A_SEED, A_BASE]),
        p!("C09", cli::c09, 20, 2000, 55000, false,
            "a run is non-trivial if a fault made the command fail or killed it; distinct by hash of document, options and fault plans",
            "distinct combinations of fault kind, errno, output context where delivery stopped, and kind of output",
            [CMD, LIB], [SIMOS], [A_SEED, A_CLI, "errors of close() are not injected: std does not report them to the program"]),
        p!("C10", cli::c10, 20, 8000, 300000, false,
            "a run is non-trivial if the input could not be read in full, or a file was rendered onto itself; distinct by hash of input, options and fault plans",
            "distinct combinations of fault kind, input and output kind, and order of magnitude of the bytes read before",
            [CMD, LIB], [SIMOS], [A_SEED, A_CLI]),
        p!("C11", cli::c11, 20, 6000, 160000, false,
            "a run is non-trivial if a read was short or interrupted or the size hint wrong; distinct by hash of document, options and arrival",
            "distinct combinations of arrival pattern, size hint, options and order of magnitude of the input",
            [CMD, LIB], [SIMOS], [A_SEED, A_CLI, A_BASE]),
        p!("C12", scen_lib::c12, 200, 1600000, 8000000, false,
            "a run is non-trivial if a storage fault changed the text; distinct by hash of the damaged text",
            "distinct pairs of fault kind and resulting event kinds",
            [LIB], [HEAP, OS, "storage: damages the stored text"], [A_SEED, "documents with at most 600 nested levels and 30000 special characters per paragraph; others are skipped and counted"]),
        p!("C13", scen_lib::c13, 100, 160000, 2800000, false,
            "every run delays or transforms events; distinct by hash of document, options, schedule and transformation seed",
            "distinct producer-consumer schedules",
            [LIB, "real threads, released one at a time"], [HEAP, OS, "thread scheduler", "event queue"], [A_SEED, A_BASE]),
        p!("C14", scen_lib::c14, 20, 2500, 75000, false,
            "every run repeats a history four times and six others; distinct by hash of the history",
            "distinct histories",
            [LIB], [SINK, HEAP, OS], [A_SEED]),
        p!("C15", scen_ext::c15, 100, 250000, 3000000, false,
            "a run is non-trivial if the sink or the renderer failed; distinct by hash of document, writes, delivered bytes and errors",
            "distinct combinations of call, kind of renderer, error, and who failed",
            ["jotdown library built from /repo's working tree: Parser, provided methods of Render, html::Renderer when wrapped"],
            [SINK, HEAP, OS, "renderer: writes drawn from a seed, fails as the plan says"], [A_SEED, A_BASE]),
        p!("C16", scen_ext::c16, 100, 250000, 3000000, false,
            "a run is non-trivial if the renderer's events differ from the parser's; distinct by hash of document, options and resulting event order",
            "distinct combinations of fault kind and element kind",
            [LIB], [SINK, HEAP, OS, "channel from parser to renderer: loses, repeats and exchanges events"], [A_SEED, A_BASE]),
        p!("C17", scen_mem::c17, 50, 20000, 500000, false,
            "a run is non-trivial if an allocation was refused; distinct by hash of document, options, refusals and what was delivered",
            "distinct combinations of call, outcome and output context where delivery stopped",
            [LIB], [HEAP, OS, "output device: keeps what it got when the process dies"], [A_SEED, A_BASE, "the simulated heap counts the bytes that are asked for, without its own overhead"]),
        p!("C18", scen_text::c18, 100, 60000, 2000000, false,
            "a run is non-trivial if parts stood next to others or blocks in front of a cut were compared; distinct by hash of the texts",
            "distinct combinations of fault kind and kinds of blocks in the text",
            [LIB], [HEAP, OS, "storage: loses, repeats, exchanges, tears and damages parts of the stored text"], [A_SEED, "parts that do not end where they should are only compared up to there"]),
        p!("C19", scen_stack::c19, 50, 16000, 500000, false,
            "a run is non-trivial if a document was worked on with a small stack; distinct by hash of document and options",
            "distinct combinations of way of working, order of magnitude of the text, and levels",
            [LIB], [HEAP, OS, "stack: of a limited size, painted to see how much of it is used"], [A_SEED, A_BASE, "an optimised build; documents with at most 250 nested blocks"]),
    ]
}
