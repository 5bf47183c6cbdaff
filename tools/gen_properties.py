#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property list)."""
import json, os
P = []
MSG="fyi_msg/src/msg/mod.rs"; KIND="fyi_msg/src/msg/kind.rs"; ANSI="fyi_msg/src/ansi.rs"; FIT="fyi_msg/src/fitted.rs"
PRG="fyi_msg/src/progress/mod.rs"; STD="fyi_msg/src/progress/steady.rs"; SIG="fyi_msg/src/progress/signals.rs"
BA="fyi_msg/src/progress/ba.rs"; ERR="fyi_msg/src/progress/error.rs"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

p("P01","Style macros expand to exactly the documented escape codes",
  "For every style keyword, colour name and colour number the style macros accept, alone or combined in any order, the expansion is one CSI sequence listing that keyword's documented SGR codes in the order given, and the bare form is the full reset. The content macros (ansi and the bold/dim/italic/underline/blink/strike shortcuts) wrap their text in exactly that opening sequence and one full reset.",
  ["programs","inputs"],"every keyword (512 numeric, named and negated colour forms plus the style words), every ordered pair of keywords, every shortcut macro",
  "The doctests expand a few dozen combinations; 256 colours times names, numbers and negations, and their combinations, are never enumerated.",
  ["fyi_ansi/src/lib.rs","skel/ansi256.rs"],[("csi!/ansi!/ansi_merge! macro rules","fyi_ansi/src/lib.rs"),("generated csi_code! table","fyi_ansi/build.rs + skel/ansi256.rs")],
  observe=["compile-time value of the expansions in a client crate"])
p("P02","ANSI colours: number, name, and escape sequence always agree",
  "For each of the 256 colour numbers, converting the number to a colour gives the variant with that discriminant and published name, and its plain sequence, its bold sequence, its Display output, its equality with a number and its hash all denote that same number. Colours 0-15 use the short 3x/9x codes and all others the 38;5;n form.",
  ["inputs"],"all 256 colour numbers and all variants",
  "Tests check a handful of colours; a single swapped table entry elsewhere passes.",
  [ANSI,"skel/ansi256.rs"],[("AnsiColor::{from_u8,as_str,as_str_bold} and trait impls",ANSI)],observe=["AnsiColor public API"])
p("P03","Message kinds: name, command, colour, and rendered prefix are one-to-one",
  "For every message kind, the display name, the subcommand spelling, the prefix colour and the rendered prefix describe the same kind: parsing a kind's subcommand (with surrounding whitespace) gives the kind back, unknown words give the empty kind, and a kind has an empty rendered prefix exactly when it reports itself empty and has no colour. A non-empty rendered prefix is the kind's bold colour, its name, a colon, a reset and a space, and each kind's dedicated constructor produces that prefix, the given text and a final line break.",
  ["inputs","configurations"],"every kind, every command word, with and without the binary-only kinds",
  "Tests sample some kinds; a crossed pair in one of five parallel tables compiles and passes.",
  [KIND,MSG],[("MsgKind tables: From<&[u8]>, as_str, command, is_empty, prefix_color, as_str_prefix, Msg::<kind>()",KIND)],observe=["MsgKind public API"])
p("P04","A message prefix's announced length equals what it writes",
  "For every type usable as a message prefix and every value of it, the announced byte length equals the number of bytes the prefix appends, and the standalone rendering is that same text. An empty label renders nothing; a plain label renders as the label plus colon and space; a coloured label renders as the colour's bold sequence, the label, and the resetting separator.",
  ["inputs"],"all prefix types (kinds, five string types, each also with a colour or colour number), all label strings and all colours",
  "Each implementation is a separate function; tests cover a few type/label combinations. A wrong length corrupts later edits of the message, not the first print.",
  [KIND],[("IntoMsgPrefix impls",KIND)],observe=["IntoMsgPrefix, Msg::new, Msg::set_prefix"])
p("P05","Editing one part of a message never disturbs the other parts",
  "A message is always the concatenation indent, timestamp, prefix, body, suffix, line break, and after any sequence of constructor and setter calls each setter has replaced exactly its own part with exactly the requested text, leaving the others byte-for-byte intact. No setter panics, and disabling an optional part leaves it empty.",
  ["histories","inputs","configurations"],"all sequences of setters from any constructor, all contents, with and without timestamps",
  "Offset tables drift only after specific sequences of edits (grow one part, shrink another); tests use a few fixed sequences.",
  [MSG],[("Msg::replace_part, Toc::{part_rng,part_len,resize_part}, toc! constructors",MSG)],state=[("toc","cumulative part offsets",MSG),("inner","the rendered text",MSG)],observe=["Msg setters and as_str"])
p("P06","Stripping ANSI removes exactly escape bytes and stays inside each part",
  "For any message content, including truncated or unterminated escape sequences, stripping never panics, never removes bytes of a neighbouring part, the indent or the line break, and keeps the part boundaries consistent with the text. Only whole escape sequences (an introducer through its terminator, or through the end of the part when unterminated) are removed, and a change is reported exactly when something was removed.",
  ["inputs","histories"],"all message contents, escape-terminated or not, in any part",
  "The interesting inputs are malformed escapes at part boundaries; tests strip one well-formed message.",
  [MSG,ANSI],[("Msg::strip_ansi",MSG),("next_ansi",ANSI)],observe=["Msg::strip_ansi, Msg::without_ansi"])
p("P07","Width measurement: cut positions are valid and never over the limit",
  "For any text and limit, the measured cut position is never beyond the end of the text, always on a character boundary, and the visible characters before it never total more columns than the limit; when everything fits it is the full length. Escape sequences, complete or not, contribute no columns, and the bytes consumed are accounted for exactly.",
  ["inputs"],"all strings including multi-byte characters and malformed escape sequences, all limits",
  "Mis-accounting by a byte only shows for specific malformed sequences followed by multi-byte text.",
  [FIT,ANSI],[("length_width",FIT),("NoAnsi::{next,drain_osc,byte_pos}",ANSI)],observe=["fyi_msg::length_width, fyi_msg::width"])
p("P08","Fitting text to a width keeps every style change and one line ending",
  "When a line is shortened to fit, the result for that line is its kept beginning, then every escape sequence from the removed remainder in order, then the line's own terminator exactly once; lines that fit are copied unchanged, and text that fits entirely is returned as is. Zero width yields the empty string.",
  ["inputs"],"all strings (any mix of fitting and non-fitting lines, LF/CRLF/no terminator, malformed escapes) and widths",
  "Multi-line input with the cut inside or just before an escape or line break is combinatorial; tests have a few strings.",
  [FIT,ANSI],[("fit_to_width",FIT),("OnlyAnsi",ANSI)],observe=["fyi_msg::fit_to_width, Msg::fitted"])
p("P09","Printing a message sends its whole text once, to the chosen stream only",
  "Printing a message writes its entire text exactly once to standard output (or standard error for the error variants), in a single locked section followed by a flush, writes nothing to the other stream, and never panics when the stream is closed or failing.",
  ["inputs","schedules","fault_sequences"],"all messages, all concurrent printers, failing streams",
  "Interleaving with other threads and write failures are not reachable from the existing tests, which never capture the process streams.",
  [MSG],[("Msg::print / Msg::eprint",MSG)],observe=["bytes on STDOUT/STDERR"])
p("P10","Confirmation prompts: every answer is judged on its own",
  "A prompt returns yes only for an answer of y or yes, no only for n or no (ignoring case and surrounding whitespace), and the stated default for an empty answer; any other answer prints an error and asks again, and earlier answers never influence later ones. The question and the errors go to the stream of the chosen variant and the question shows which answer is the default.",
  ["inputs","histories"],"all answer sequences, both defaults, both streams",
  "The prompt reads the process's standard input in a loop; no test drives it.",
  [MSG],[("Msg::{prompt,eprompt}[_with_default]",MSG)],observe=["Msg::prompt* return value and output"])
p("P11","Command line options each have exactly their documented effect",
  "Every documented option of the message subcommands, short or long, in any order and position, has exactly its documented effect and no other: indent adds one level, timestamp adds a timestamp, stderr redirects, yes flips the default answer, exit sets the exit code, prefix and prefix-colour set the custom prefix. Exactly one message argument is accepted, and a word that is no documented option of the subcommand is that message; a second such word and a missing message are errors reported before anything of the message is printed. Every printed message ends with a line break.",
  ["inputs","configurations"],"all option orders and combinations, all values",
  "The binary has almost no tests; option interactions are combinatorial.",
  ["fyi/src/cli.rs","fyi/src/main.rs"],[("parse_kind, parse_msg, parse_blank","fyi/src/cli.rs")],observe=["fyi command line"])
p("P12","Exit status and output stream always match the outcome",
  "Success, help and version exit 0; usage errors print one error to standard error and exit non-zero with nothing on standard output; a requested exit code is returned only after the message was printed; a confirmation exits 0 for yes and non-zero for no and prints nothing further. Help and version text go to standard output.",
  ["inputs","histories"],"all invocations",
  "No test runs the binary's main path.",
  ["fyi/src/main.rs","fyi/src/error.rs","fyi/src/cli.rs"],[("main, main__, FyiError","fyi/src/main.rs")],observe=["process exit code, STDOUT, STDERR"])
p("P13","Every documented subcommand and option is accepted and handled",
  "Each subcommand and option that the built-in help, the shell completions or the manual advertise for the binary is recognised by the argument parser for that subcommand and reaches a handler, every kind's subcommand has a help screen of its own, and every keyword the parser recognises is handled rather than rejected as unknown.",
  ["inputs","configurations"],"every advertised subcommand x option",
  "Documentation and parser tables are separate files; nothing compares them.",
  ["fyi/src/cli.rs","fyi/src/main.rs","fyi/help/generic.txt","release/completions/fyi.bash"],[("argyle keyword tables and match arms","fyi/src/cli.rs"),("helper","fyi/src/main.rs")],observe=["fyi --help screens vs behaviour"])
p("P14","Every possible total is classified correctly when starting progress",
  "Starting a progress bar from any supported integer type succeeds exactly when the value is between 1 and 4294967295, and then starts with nothing done, that exact total, and in the running state. Zero is reported as an empty total and negative or larger values as an overflow; a fallible reset behaves the same for its range.",
  ["inputs"],"all values of all 18 accepted integer types",
  "Each type has its own conversion; tests sample boundary values of some types.",
  [PRG,ERR],[("From/TryFrom impls, Progless::try_reset",PRG)],observe=["Progless::try_from / from / try_reset"])
p("P15","Concurrent progress updates are never lost or double counted",
  "Under any interleaving of increments, task removals and done-settings from any number of threads, every accepted increment is reflected in the done count (no update overwrites another), done never exceeds the total, the total never changes except by reset, and once done reaches the total the run ends and the count stays there.",
  ["schedules","histories"],"all interleavings of setters and task calls on shared handles (histories without a concurrent reset)",
  "A lost update needs two threads inside the same few instructions; tests that spawn threads pass nearly always.",
  [PRG],[("increment_n, set_done, stop, remove",PRG)],state=[("done_total","packed done/total counter",PRG)],observe=["Progless::summary, rendered done count"])
p("P16","Finishing a progress run freezes it completely, once",
  "Finishing (explicitly, or by reaching the total) clears the running state exactly once no matter how many threads finish, sets done to the total, clears the task list, freezes the elapsed time, and erases the bar from the screen. After that, adding, removing, incrementing and setting have no effect until a reset, which restores a running state with zero done, no tasks, the new total and everything due for repaint.",
  ["schedules","histories"],"all sequences and interleavings of finish with other calls",
  "Late calls from worker threads racing the finish are not reachable deterministically from tests.",
  [PRG],[("ProglessInner::stop/reset and gated setters",PRG)],state=[("flags","running and repaint bits",PRG)],observe=["Progless::finish/reset/add/remove/increment"])
p("P17","No progress output after the run has been finished",
  "Once finishing has erased the bar, no thread (ticker, message pushing or otherwise) paints progress output again: every paint confirms the run is still active while already holding exclusive access to standard error, and the final erase happens under that same access after the run is marked finished.",
  ["schedules"],"all interleavings of ticks, pushed messages and finish",
  "The window is a few instructions between the check and the lock; terminal output is not captured by tests.",
  [PRG],[("ProglessInner::{tick,stop,push_msg}",PRG)],observe=["bytes on STDERR"])
p("P18","Progress locks are always taken in one order: no deadlock",
  "No interleaving of public progress calls, the background ticker, and dropping handles can deadlock: the internal locks and the standard error lock are acquired in one global acyclic order, no lock is re-acquired while held, no thread is joined while holding a lock that thread can need, and nothing but its own lock is held while waiting.",
  ["schedules"],"all threads, all public progress calls, all feature sets",
  "A deadlock needs a precise interleaving of two lock acquisitions.",
  [PRG,STD,SIG],[("mutex! acquisitions, std::io::stderr().lock(), JoinHandle::join",PRG)],observe=["progress of all threads"])
p("P19","The background ticker always ends with its progress bar",
  "Every started ticker thread is stopped and joined when the progress bar is finished, reset or its last handle dropped: the stop request is set under the ticker's lock and signalled before joining, the ticker exits whenever it sees the request or the run has ended, and a new ticker is started only after the previous one was joined and the request cleared.",
  ["schedules","histories"],"all sequences and interleavings of start, finish, reset and drop (without two concurrent resets)",
  "A missed wake-up or leaked thread is timing dependent and invisible to assertions on values.",
  [STD,PRG],[("ProglessSteady::{start,stop,drop}, spawn_ticker",STD)],observe=["thread count, finish() returning"])
p("P20","Every visible change is eventually repainted",
  "Each change to the title, the task list or the done count is published before the matching repaint request, and a tick consumes the requests before it reads the data, so that no interleaving leaves a change unpainted while the run continues. The repaint requests for different components are independent of each other and of the running state.",
  ["schedules"],"all interleavings of setters and ticks",
  "A lost repaint needs a tick between the two steps; tests do not render.",
  [PRG],[("flags fetch_or/fetch_and in setters and tick",PRG)],state=[("flags","repaint bits",PRG)],observe=["painted frames"])
p("P21","Each repaint rewinds exactly as many lines as it printed",
  "A painted frame always ends with a reset, a return to column one, and a cursor-up of exactly the number of line breaks the frame contains (title line plus task lines, none if there are none), so frames replace each other without drifting. Every painted part is written from its own start to its end even when the terminal accepts only part of a write.",
  ["inputs","histories"],"all titles, task lists and terminal sizes",
  "Needs a terminal; tests never render frames. The rewind table has 256 hand-written entries.",
  [PRG],[("ProglessBuffer::{print,set_title,set_doing}, CLOSE table",PRG)],state=[("lines_doing","task lines in the frame",PRG)],observe=["bytes on STDERR"])
p("P22","Task labels on screen are single-line plain text and counted once",
  "Whatever label is passed in, the task list only ever holds non-empty labels free of escape sequences, control characters and any whitespace other than plain spaces; escape sequences are removed whole, and a label that sanitises to nothing is refused. Adding reports true exactly when the label was newly listed, and removing takes a listed task off and counts it done exactly once, doing nothing for a label that is not listed.",
  ["inputs","schedules","histories"],"all label strings, all add/remove histories and interleavings",
  "Sanitisation must hold for every Unicode string; tests check a few.",
  [PRG],[("progless_task, ProglessInner::{add,remove}",PRG)],state=[("doing","active task labels",PRG)],observe=["Progless::add/remove, painted task lines"])
p("P23","Bar geometry is exact for every count, total, and width",
  "For every done/total pair and terminal width the bar computation cannot overflow or panic; when the bar is shown, its done and undone segments together fill exactly the available space, with nothing filled at zero, everything filled at completion, and the filled share within one cell of done/total in between; when there is too little room no bar is drawn.",
  ["inputs"],"all done <= total <= 4294967295 and all widths",
  "Overflow needs totals in the tens of millions; tests use small totals and no terminal.",
  [PRG],[("ProglessBuffer::set_bars",PRG)],observe=["painted bar"])
p("P24","A hidden cursor is always shown again",
  "With SIGINT support, whenever the ticker hides the terminal cursor, the cursor is shown again on every way out: normal completion, finish, reset, early shutdown, a panic in the ticker, and interruption by SIGINT under each of the three policies, in each case before the process or thread ends.",
  ["schedules","histories","fault_sequences"],"all exits of the ticker and all signal policies",
  "Needs signals and a terminal; no test captures the sequences.",
  [SIG,STD],[("ProglessSignals Default/Drop, sigint handlers",SIG)],observe=["bytes on STDERR"])
p("P25","Each SIGINT policy does what it says and the first choice wins",
  "The default policy terminates the process with status 1 on the first SIGINT, two-strike only records the first and terminates with status 1 on the second, and keepalive never terminates; every policy records the signal in the flag it hands out. Only the first selected policy is ever registered, exactly once, and every later request returns that same flag.",
  ["histories","schedules"],"all selection orders and signal sequences",
  "Signal delivery and process exit cannot be asserted by in-process tests.",
  [SIG],[("Progless::sigint_two_strike/sigint_keepalive, ProglessSignals::default",SIG)],observe=["process exit, shared flag"])
p("P26","Unsafe code is confined to SIGINT registration",
  "No function in the workspace performs an operation the compiler cannot prove memory safe, other than registering the SIGINT callbacks; in particular, every string is built without unchecked conversions, so any input yields valid UTF-8 without undefined behaviour.",
  ["programs","inputs"],"every function in every feature set",
  "Undefined behaviour on some input can pass every test.",
  [MSG,KIND,ANSI,FIT,PRG,STD,SIG,"fyi/src/cli.rs"],[("forbid(unsafe_code) / deny(unsafe_code) and three registration blocks",SIG)],observe=["all public API"])
p("P27","Messages compare, order, and hash by their rendered text alone",
  "Two messages with the same rendered text are equal, order equal and hash equally regardless of how their parts were built, the ordering is the text's own, comparison with every supported string and byte type agrees with comparing the text in both directions, and a message hashes like the text it can be borrowed as.",
  ["inputs","histories"],"all pairs of messages and comparands, all 31 comparison impls",
  "Dozens of tiny impls; tests sample some. A part-table comparison would only differ for equal texts built differently.",
  [MSG],[("Eq/Ord/Hash/Borrow/PartialEq impls",MSG)],observe=["==, cmp, hash, map lookups"])
p("P28","Before/after savings are reported exactly",
  "For every pair of sizes, the reported saving is the exact difference when both are non-zero and after is smaller, the reported growth is the exact difference when after is larger, and otherwise nothing is reported; a percentage is given only together with the matching difference, as its ratio to the before value. The bytes-saved suffix replaces the message's suffix only, showing the saved amount exactly when there is one and a no-savings note otherwise.",
  ["inputs"],"all pairs of 64-bit sizes",
  "Swapped operands or a boundary slip show only for particular orderings.",
  [BA,MSG],[("BeforeAfter::{less,more,less_percent,more_percent}",BA),("Msg::with_bytes_saved",MSG)],observe=["BeforeAfter getters, Msg suffix"])
p("P29","Pushed messages appear whole, above the bar, exactly once",
  "A message pushed during progress is written in full, ending in exactly one added line break, once, to standard error; while the bar is running the old bar is erased first within the same exclusive section and the bar is repainted afterwards even if nothing else changed. If writing fails the message is handed back, otherwise success is reported; when progress is not running it is simply printed.",
  ["schedules","inputs","fault_sequences"],"all messages, all interleavings with ticks, failing writes",
  "Needs captured terminal output and write faults.",
  [PRG],[("ProglessInner::push_msg",PRG)],observe=["bytes on STDERR, returned Result"])
p("P30","Progress titles: empty means none, and always one line",
  "Setting a title stores it without a trailing line break, an empty title or none removes it, and changing only the title's text affects nothing when there is no title. The painted title is always at most one line, whatever the text contains, followed by exactly one line break, and absent when the terminal is too short.",
  ["inputs","histories"],"all titles and sequences of title calls",
  "Titles containing embedded line breaks and particular call orders are not sampled.",
  [PRG],[("set_title, set_title_msg, with_title, ProglessBuffer::set_title",PRG)],observe=["painted title line"])
p("P31","Indentation is four spaces per level, capped, and never panics",
  "For every indentation level the message's indent is exactly four spaces per level up to eight levels and thirty-two spaces beyond, with no other characters, replacing any earlier indent.",
  ["inputs"],"all 256 levels",
  "Tests try a few levels.",
  [MSG],[("Msg::set_indent/with_indent",MSG)],observe=["Msg::as_str"])
p("P32","The blank command prints exactly the requested number of empty lines",
  "The blank subcommand prints line breaks only, as many as requested (one when no count, zero or an unparsable count is given, and the largest when several are given), to standard error only if asked and otherwise to standard output only, and exits successfully; asking for help prints no blank lines.",
  ["inputs"],"all option combinations and counts",
  "The binary's blank path has no tests.",
  ["fyi/src/cli.rs"],[("parse_blank","fyi/src/cli.rs")],observe=["fyi blank output"])
p("P33","Interrupt callbacks never wait for a lock another thread may hold",
  "Code run inside a SIGINT callback performs only operations that cannot block on locks held by the interrupted thread: atomic updates, process exit, and unlocked writes.",
  ["schedules"],"all points at which SIGINT can arrive",
  "Needs a signal at a precise instruction.",
  [SIG],[("signal_hook::low_level::register callbacks",SIG)],observe=["process not hanging on Ctrl-C"])
# Not applicable (static analysis cannot decide them here).
p("P40","Painted frames never exceed the terminal width",
  "Every line of a painted frame occupies no more columns than the terminal reported for that frame.",
  ["inputs","configurations"],"all states and terminal sizes",
  "Needs terminal rendering widths of composed text.",
  [PRG,FIT],[("ProglessBuffer::print",PRG)],observe=["terminal"])
p("P41","Displayed percentages and elapsed times are numerically correct",
  "The percentage shown is done/total rounded as documented and the clock shown is the elapsed wall time.",
  ["inputs"],"all counts and durations","Numeric formatting over all values.",
  [PRG],[("dactyl formatting",PRG)],observe=["painted frame"])
p("P42","The bar refreshes at a steady rate of about ten times per second",
  "While running, changes become visible within roughly a tenth of a second and idle ticks cost almost nothing.",
  ["schedules"],"all loads","Wall-clock behaviour.",
  [STD],[("TICK_RATE wait",STD)],observe=["terminal"])
p("P43","Timestamps show the current local time",
  "The timestamp part shows the local date and time at which it was enabled, in the system's time zone.",
  ["configurations"],"all time zones and instants","Depends on the clock and zone database.",
  [MSG],[("Msg::set_timestamp",MSG)],observe=["Msg text"])
p("P44","A prompt always terminates when input is exhausted or unreadable",
  "A prompt returns once standard input is at end of file or permanently failing.",
  ["fault_sequences"],"all input error sequences","Liveness against an environment that keeps failing.",
  [MSG],[("Msg::prompt__",MSG)],observe=["Msg::prompt"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
