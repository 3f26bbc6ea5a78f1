#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "The terminal always shows output, status, prompt and input intact",
  "After any sequence of printed lines, status changes, prompt changes, notices and keystrokes on an ANSI terminal, the screen shows exactly the printed lines in order, then the status line if there is one, then the notice, or else the prompt followed by the current input, each with its own text and wrapped at the terminal's width, with nothing stale left behind. The cursor stands at the input's insertion point whenever input is allowed and no notice is showing.",
  ["inputs", "histories"], "all sequences of display-affecting calls and keystrokes, all text contents (narrow, wide, multi-byte, control characters, line breaks), terminal widths",
  "The redraw is incremental: what is emitted depends on the previous screen contents. The existing tests never run the terminal worker, so no pair (old screen, new screen) is covered.",
  ["src/worker.rs", "src/term/cross.rs", "src/line.rs"],
  [("remembered output and incremental update", "src/worker.rs: TtyState::output_line_changes, rollin, rollout"),
   ("cursor reconciliation", "src/worker.rs: reconcile_cursors, maybe_report"),
   ("output of finished lines", "src/worker.rs: output_line")],
  ["bytes written to the terminal, interpreted by a terminal emulator"],
  [("remembered_output", "what the screen below the output region shows now, and where the cursor is", "src/worker.rs: TtyState"),
   ("rollout_needed", "the screen is out of date", "src/worker.rs: TtyState")])

p("C02", "Every printed line appears exactly once, whole, in order",
  "Every line passed to println, wrapln or echoln by any thread before the instance is shut down reaches the output exactly once, unbroken by any other output, and lines sent by one thread appear in the order it sent them. This holds for any number of senders, any interleaving with prompt, status, notice and keystroke traffic, and in terminal as well as pipe mode (except that echoed lines are omitted in pipe mode).",
  ["schedules", "inputs"], "all interleavings of sender threads, the worker and the input thread within the bounds; all line contents",
  "The existing tests never send output from several threads and do not run a worker; ordering and exactly-once depend on the schedule.",
  ["src/lib.rs", "src/worker.rs"],
  [("single request channel drained by one worker", "src/lib.rs: Output::send; src/worker.rs: tty_worker, pipe_worker"),
   ("requests queued before shutdown are drained", "src/worker.rs: tty_worker; src/lib.rs: actually_blocking_die")],
  ["bytes written to the terminal or pipe"])

p("C03", "Line editing follows the documented Readline-style bindings",
  "From any input text and any cursor position, every editing key (printable characters, left/right, home/end, backspace, delete, kill to end, kill to start, delete word, yank, discard, return and their control-key equivalents) changes the text, the cursor and the cut buffer exactly as documented, never splits a character, and rings the bell or does nothing when there is nothing to do. Return delivers exactly the edited text and leaves an empty line.",
  ["inputs", "histories"], "all texts up to the bound over one- to four-byte characters, all cursor positions, all sequences of editing keys up to the bound",
  "No existing test sends a keystroke; cursor arithmetic over multi-byte text goes wrong only for particular text and cursor combinations.",
  ["src/worker.rs"],
  [("editing operations", "src/worker.rs: handle_char_input, handle_left_arrow, handle_right_arrow, handle_delete_back, handle_delete_fore, handle_delete_word, handle_kill_to_end, handle_kill_to_start, handle_yank, handle_discard, handle_return")],
  ["responses received by the program", "text and cursor handed to a completor"],
  [("input, input_cursor, clipboard", "the line being edited, insertion point (byte offset on a character boundary), cut buffer", "src/worker.rs: TtyState")])

p("C04", "Keyboard bytes are decoded exactly, however they are chunked",
  "The bytes arriving from the terminal are decoded to the same keys whatever way they are split into reads: each valid UTF-8 character is entered exactly once and unaltered, each supported escape sequence acts as its one key and leaves no residue, and a lone escape followed by silence is reported as Escape. No byte sequence, valid or not, panics, hangs or stops input from working.",
  ["inputs", "schedules"], "all byte sequences up to the bound, all splits into reads, with or without pauses",
  "The decoder is a byte-at-a-time state machine with timeouts that no existing test drives; malformed UTF-8 and truncated sequences are never sampled.",
  ["src/term/cross.rs", "src/worker.rs"],
  [("byte decoder and escape timeout", "src/term/cross.rs: input_thread"),
   ("escape-sequence interpretation", "src/worker.rs: handle_input_sequence")],
  ["responses received by the program"])

p("C05", "Every keystroke yields its documented response, in order",
  "Return, control-C, control-D on an empty line, control-G with text, control-T, control-X, control-backslash, escape and otherwise unknown control keys each deliver exactly one response of the documented kind carrying the documented value, responses arrive in the order the keys were typed, and nothing else is delivered. Custom values sent from any clone are delivered exactly once, in order.",
  ["inputs", "schedules"], "all sequences of control keys and text up to the bound, all of the reading methods",
  "No existing test reads a response produced by a key; the mapping has 32 control codes and depends on the editing state.",
  ["src/worker.rs", "src/lib.rs"],
  [("key dispatch", "src/worker.rs: handle_input, handle_one_press"),
   ("response channel", "src/lib.rs: read_blocking, read_timeout, read_deadline, try_read, read_async; send_custom")],
  ["responses received by the program"])

p("C06", "Styled lines keep exactly the text and attributes given",
  "A line built by any sequence of text, style, colour, reset, line-break and append operations yields, character by character, exactly the text given in order, each character carrying the style and colours in force when it was added. Control characters are replaced by visible caret notation in toggled inverse video as documented, newlines are kept, and iterating, comparing, cloning and slicing never panic or lose text.",
  ["inputs", "histories"], "all sequences of building operations up to the bound, all characters",
  "Existing tests check a few literal lines; merging of neighbouring elements and control-character replacement depend on the whole building history.",
  ["src/line.rs", "src/lib.rs"],
  [("element bookkeeping", "src/line.rs: add_text, append_text, append_line, set_*/toggle_*, reset_and_break, chars")],
  ["Line::chars(), Line::as_str(), equality"])

p("C07", "ANSI text is interpreted as documented",
  "Adding ANSI text applies every select-graphic-rendition sequence it documents (reset, bold, dim, italic, underline, inverse, their resets, the eight standard foreground and background colours and the default colours, in any combination, with empty parameters meaning zero) to the text that follows. Everything it does not support is handled as documented without panicking, and all other text is added unchanged.",
  ["inputs"], "all byte strings up to the bound built from escape, bracket, digits, separators, finals and ordinary characters",
  "Existing tests use a handful of literal sequences; parameter lists, truncated sequences and unusual parameters are not sampled.",
  ["src/line/add_ansi.rs", "src/line.rs"],
  [("escape-sequence scanner", "src/line/add_ansi.rs: add_ansi_text")],
  ["Line::chars()"])

p("C08", "Wrapping keeps text and style and never exceeds the width",
  "Wrapping a line to a width keeps every visible character in order with its own style and colours, keeps the line breaks that were already there, and changes nothing except whitespace at the places where it breaks. No resulting row is wider than the width (unless a single character is), and wrapping never panics whatever the text, styles or width.",
  ["inputs"], "all texts up to the bound over letters, spaces, newlines, wide and multi-byte characters; all style boundaries; all small widths",
  "Existing tests wrap a few ASCII lines; the failures depend on multi-byte text, existing line breaks and element boundaries in combination.",
  ["src/line.rs", "src/worker.rs"],
  [("wrapping", "src/line.rs: wrap_to_width, erase_and_insert_newline")],
  ["Line::chars() after wrap_to_width; the screen after wrapln"])

p("C09", "History keeps the newest distinct lines, in order, within its limit",
  "Adding a line to the history puts it last, removes earlier copies of it when duplicate stripping is on, ignores what the documentation says is ignored, and keeps at most the configured number of lines by dropping the oldest; everything else keeps its order. Changing the limit or the stripping option applies the same rules, and automatic saves happen exactly when the configured interval says so.",
  ["histories", "inputs", "configurations"], "all histories, added lines, limits, options and intervals within the bounds",
  "There is no test of the history list at all.",
  ["src/history.rs", "src/worker.rs"],
  [("insertion", "src/history.rs: History::add_line, set_limit, set_strip_duplicates, set_autosave_interval")],
  ["History::get_lines(), autosave handler calls"])

p("C10", "A history file survives crashes, faults and restarts",
  "A history saved to a file reads back as the same lines in the same order, and a history bound to a file is saved when it is dropped as well as at its interval, creating the file if it did not exist. If saving fails or the machine stops at any point during it, the file afterwards holds either the complete old or the complete new contents, and the failure is reported to the caller.",
  ["crash_points", "fault_sequences", "inputs"], "all line contents within the bound, every file-system operation as a crash point or failing operation, short writes",
  "Tests cannot stop between two file-system operations or make one of them fail.",
  ["src/history.rs"],
  [("write to a temporary name, then rename", "src/history.rs: History::from_file, write_history_to"),
   ("autosave", "src/history.rs: set_autosave_handler, autosave_now, add_line, Drop")],
  ["contents of the history file and its neighbours; returned errors"])

p("C11", "Moving through history never loses the line being typed",
  "Up and down step through exactly the lines of the current history, newest first, and stepping back down past the newest returns the very text that was being typed. Nothing panics, and the line being typed is not lost, even when lines are added or the whole history is replaced by another thread while the user is moving through it.",
  ["histories", "schedules", "inputs"], "all sequences of up/down/edit/return/history replacement up to the bound, all history contents within the bound, replacement at any moment relative to the keys",
  "No existing test presses a key or replaces a history during navigation; the failures need a particular interleaving.",
  ["src/worker.rs", "src/history.rs", "src/lib.rs"],
  [("history cursor", "src/worker.rs: history_prev, history_next, BumpHistory handling, handle_return"),
   ("history replacement", "src/lib.rs: swap_history")],
  ["responses received by the program, text handed to a completor"],
  [("cur_history_index, orphaned_new_input, history_original_line", "where the user is in the history, the unfinished new line, the unedited text of the line being visited", "src/worker.rs: TtyState")])

p("C12", "Tab completion sees and edits the true input",
  "Each Tab calls the completor once with the current input, a cursor on a character boundary within it, and the number of consecutive Tab presses starting at one; any other key restarts the count. The completor's answer (insert at cursor, replace the line, or nothing) is applied exactly, including the new cursor, and removing or replacing the completor takes effect for the next Tab.",
  ["inputs", "histories"], "all inputs, cursors and completor answers within the bound, all short sequences of Tab and other keys",
  "There is no test of completion.",
  ["src/worker.rs", "src/completion.rs", "src/lib.rs"],
  [("completion dispatch", "src/worker.rs: handle_completion, handle_input; src/lib.rs: set_completor, remove_completor")],
  ["arguments of Completor::complete, responses, screen"])

p("C13", "A notice shows at once and goes away when documented",
  "A notice replaces the prompt and input on the screen at once, and disappears when its time is up, when the user presses any key, or when another notice replaces it, whichever is first, after which the prompt and input are shown again unchanged. The key that dismisses it still has its effect, and any number of notices in a session behave the same way.",
  ["histories", "schedules", "inputs"], "all short sequences of notices with different durations, keys and passages of time",
  "Notices depend on time and on a helper thread; no existing test shows one.",
  ["src/worker.rs"],
  [("notice state and heartbeat thread", "src/worker.rs: show_notice, Heartbeat handling, dismiss_notice, tty_worker heartbeat thread")],
  ["the screen over time"])

p("C14", "In pipe mode lines pass through untouched, once each",
  "When standard input or output is not a terminal, or TERM is dumb or pipe, every input line is delivered exactly once, in order and without any processing beyond removal of its line terminator, and no line is invented, in particular at end of input. Printed lines appear as their plain text plus a newline, and prompts, statuses, notices, echoes and escape sequences never appear in the output.",
  ["inputs", "configurations", "schedules"], "all byte contents of the input within the bound, all splits into reads, all calls that should be silent",
  "The existing tests never read input in pipe mode; what happens at end of input and with unusual terminators is not sampled.",
  ["src/worker.rs", "src/lib.rs"],
  [("pipe worker", "src/worker.rs: pipe_worker, worker, is_pipe_term")],
  ["responses received by the program, bytes written"])

p("C15", "Starting and stopping leave the terminal and the program sound",
  "Shutting an instance down, by dropping it or by an explicit die, displays everything printed before, removes prompt, status and notice from the screen, restores the terminal settings and attributes, and returns; afterwards sends on clones are refused as documented and a new instance can be created. At most one instance exists at a time, and a reader of a dead instance is told so, up to the documented number of times, and never hangs.",
  ["schedules", "histories", "fault_sequences"], "all short sequences of create, use, clone, die, drop and re-create, all interleavings within the bounds, terminal write failures and hang-up",
  "The existing tests only create and drop instances in pipe mode; terminal restoration and races on the single-instance rule are not observable there.",
  ["src/lib.rs", "src/worker.rs", "src/unix_util.rs", "src/term/cross.rs"],
  [("shutdown", "src/lib.rs: actually_blocking_die, Drop for InputOutput, report_death; src/worker.rs: cleanup; src/unix_util.rs"),
   ("single instance", "src/lib.rs: InputOutput::new, LISO_OUTPUT_TX")],
  ["terminal modes, screen, results of calls"])

p("C16", "Suspending gives up the terminal cleanly and restores everything",
  "While the function given to suspend_and_run runs, the prompt, status and input are off the screen and the terminal is in the mode it had before Liso started; it runs exactly once and in order with surrounding output. Afterwards raw mode, status, prompt and input are restored exactly, and the same holds around a control-Z suspension.",
  ["histories", "inputs"], "all display states within the bound at the moment of suspension, all short sequences around it",
  "No existing test suspends; the terminal state is invisible to the tests.",
  ["src/worker.rs", "src/term/cross.rs", "src/unix_util.rs"],
  [("suspension", "src/worker.rs: SuspendAndRun handling, handle_suspend; src/term/cross.rs: suspend, unsuspend")],
  ["terminal modes and screen during and after"])

p("C17", "Prompt options take effect exactly as requested",
  "Setting the prompt shows the new prompt, allows or refuses typing as requested from then on, and clears the partial input if and only if asked to, whatever was being edited and wherever the cursor was. While input is not allowed, keystrokes change nothing and deliver nothing and the cursor is hidden; allowing it again resumes with the input that was kept.",
  ["inputs", "histories"], "all short sequences of prompt calls with every flag combination and keystrokes, all inputs and cursor positions within the bound",
  "No existing test sets a prompt on a terminal and then types.",
  ["src/worker.rs", "src/lib.rs"],
  [("prompt handling", "src/worker.rs: Request::Prompt handling; src/lib.rs: Output::prompt")],
  ["screen, responses"])

p("C18", "VT52 terminals get the same display",
  "On a terminal whose TERM names a VT52 or Atari type, the screen shows the same output lines, status, prompt, input, notice and cursor position as on an ANSI terminal, using only that terminal's escape sequences. Characters the terminal cannot show are replaced without disturbing the layout.",
  ["inputs", "histories", "configurations"], "all short sequences of display calls and keystrokes, all VT52 terminal types and representative sizes",
  "There is no VT52 in the test environment.",
  ["src/term/vt52.rs", "src/term.rs", "src/worker.rs"],
  [("VT52 back end", "src/term/vt52.rs: Vt52")],
  ["bytes written, interpreted by a VT52 emulator"])

p("C19", "Captured standard error lines are displayed exactly",
  "With stderr capture enabled, everything written to standard error while an instance is running appears as output lines split exactly at newlines, each once, in order and with invalid UTF-8 replaced, however the writes are cut up; lines longer than the buffer lose no bytes. When the instance ends the original standard error is back and pending text has been shown.",
  ["inputs", "schedules"], "all byte strings and all cuts into reads within the bound, including reads that fill the buffer",
  "The feature is off in the test build, and buffer wrap-around needs particular read sizes.",
  ["src/stderr_capture.rs"],
  [("line splitter", "src/stderr_capture.rs: capture thread")],
  ["output lines on the screen"])

p("C20", "Colours and styles on screen are exactly those requested",
  "Every character on an ANSI terminal is shown with exactly the style, foreground and background requested for it, whatever was displayed before it; the attributes of one line, status, prompt or notice never leak into anything else, and unused parts of rows are filled only as the trailing attributes require. The input text takes the attributes in force at the end of the prompt.",
  ["inputs", "histories"], "all pairs and short sequences of styles, foregrounds and backgrounds, over printed lines, status, prompt, notice and input",
  "The attribute commands sent depend on the previous attributes; the number of (previous, next) combinations is far beyond the tests, which never inspect terminal output.",
  ["src/term/cross.rs", "src/worker.rs", "src/lib.rs"],
  [("attribute change minimisation", "src/term/cross.rs: set_attrs; src/worker.rs: output_char, output_line"),
   ("end-of-row fill", "src/worker.rs: output_line, output_line_changes; src/line.rs: endfills_same_as")],
  ["attributes of each cell after interpretation of the bytes by a terminal emulator"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
