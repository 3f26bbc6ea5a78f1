"""What each check runs: entry points of the harness, their time limits
(seconds, quick and thorough) and the bounds they state."""

# property -> (variant, [(entry, quick seconds, thorough seconds, bounds)])
CHECKS = {
    "C01": ("default", [
        ("entry_c01_status", 60, 600, "every status of 0-4 (thorough 5) letters, with or without a line break, replaced by any other, on 2-3 columns"),
        ("entry_c01_script", 90, 900, "all sequences of 3 (thorough 4) operations of 10 kinds (statuses, prompts, lines and notices of 0-4 letters, typed letters, cursor left, backspace, input refused, the notice's time passing) on 3 columns"),
        ("entry_c01_wide", 60, 600, "one status or prompt of up to 3 (thorough 4) letters, wide and combining characters and line breaks replaced by another, on 2-4 columns"),
        ("entry_c01_out", 60, 600, "a printed or echoed line of up to 5 (thorough 6) letters, wide and combining characters and line breaks above a prompt, on 2-4 columns"),
        ("entry_c01_wrap", 60, 600, "a wrapped line of 2-6 (thorough 8) letters, spaces and line breaks, on 2-4 columns"),
        ("entry_c01_clear", 30, 300, "the screen cleared with control-L between two prompts of 0-4 letters"),
        ("entry_c01_unknown", 30, 300, "pairs of 10 kinds of operation on a terminal that reports a width of zero: no panic, and lines and input get through"),
        ("entry_c01_resize", 60, 600, "pairs (thorough triples) of 10 kinds of operation, each after a change of width to 1, 2, 3, 5 or 9: no panic, and input gets through"),
        ("entry_c01_big", 60, 600, "prompts of every length up to two rows, and of lengths around multiples of the width with long statuses and lines, on 24 or 40 (thorough also 80) columns"),
        ("entry_c01_repeat", 60, 600, "all pairs (thorough triples) of the 10 kinds of operation, carried out 6 (thorough 12) times over"),
    ]),
    "C03": ("default", [
        ("entry_c03_edit", 90, 900, "all texts of 3 (thorough 4) letters, spaces and wide characters, all cursor positions, all pairs of 16 editing keys, then yank and return"),
        ("entry_c03_marks", 90, 900, "all texts of 4 (thorough 5) letters, spaces, ideographic spaces, two-byte and combining characters (also at the start), all cursor positions, each of 16 editing keys"),
        ("entry_c03_rows", 60, 600, "inputs of 0-4 (thorough 5) letters over several rows of 3 columns, all cursor positions, all pairs of 11 editing keys"),
        ("entry_c03_big", 60, 600, "inputs of 10 lengths from 60 to 300 (thorough all up to 300), with or without spaces and wide characters, the cursor at the end, in the middle or near the start, each of 14 keys"),
        ("entry_c03_repeat", 60, 600, "all triples of 18 keys, pressed 5 times over"),
    ]),
    "C06": ("default", [
        ("entry_c06_ops", 60, 600, "all sequences of 3 attribute operations (of 11 kinds, all styles and colours symbolic) with one symbolic printable ASCII character after each (thorough: same, longer)"),
        ("entry_c06_pairs", 60, 600, "all runs of 3 consecutive operations (thorough 4), symbolic arguments, before or after text"),
        ("entry_c06_text", 60, 600, "all texts of 1-2 (thorough 3) characters over all scalar values below U+110000 by UTF-8 length class, in any style, through each of the three text types"),
        ("entry_c06_from", 30, 300, "the six constructors over all texts of 1-2 characters of up to three bytes"),
        ("entry_c06_append", 60, 600, "append_line of lines of up to 3 (thorough 4) operations to lines of up to 2"),
        ("entry_c06_eq", 30, 300, "comparison of all pairs of two-character lines in any style and foreground"),
        ("entry_c06_endfill", 30, 300, "endfills_same_as over all pairs of characters with any attributes"),
        ("entry_c06_macro", 30, 300, "one (thorough two) pieces added by liso_add! in each of its forms, with symbolic attributes and arguments, to a line in any attributes"),
        ("entry_c06_liso", 30, 300, "six lines of liso! in its documented forms, any colours, texts of 0-2 characters of up to two bytes"),
        ("entry_c06_big", 60, 600, "lines of 2-261 (thorough 2-1031) pieces, with changes of colour at every, every other or no piece, and appending them"),
        ("entry_c06_repeat", 60, 600, "all sequences of 3 (thorough 4) operations of 7 kinds, symbolic arguments, 8 (thorough 20) times over"),
    ]),
    "C07": ("default", [
        ("entry_c07_one", 60, 300, "all SGR sequences with one parameter of 0-3 digits, after any attributes"),
        ("entry_c07_two", 120, 600, "all pairs of parameters of 0-2 digits each"),
        ("entry_c07_ext", 90, 600, "38/48/58 followed by up to 6 one-digit parameters"),
        ("entry_c07_any", 60, 900, "all strings of 5 (thorough 6) bytes over {ESC [ m 1 ; ? 0 space x 3 : newline}"),
        ("entry_c07_ascii", 120, 900, "up to 2 arbitrary ASCII bytes, ESC [, 2 arbitrary ASCII bytes, m, one character of 1-3 bytes"),
        ("entry_c07_long", 60, 300, "parameters of up to 25 digits around the limits of 8-, 16-, 32- and 64-bit numbers"),
        ("entry_c07_big", 60, 300, "one sequence of 1-260 parameters, or 1-260 sequences"),
    ]),
    "C08": ("default", [
        ("entry_c08_words", 60, 600, "all texts of 8 (thorough 10) letters, spaces and newlines, widths 1-4"),
        ("entry_c08_style", 60, 600, "all texts of 6 (thorough 7) letters, spaces and newlines with a change of background (thorough: and one of style) at any place, widths 1-3"),
        ("entry_c08_wide", 60, 600, "all texts of 4 letters, spaces, newlines and double-width characters, widths 1-3 (thorough: also two-byte characters and a change of attributes)"),
        ("entry_c08_multi", 60, 600, "all texts of 4 (thorough 5) two-byte characters, spaces and newlines with a change of background, widths 1-2"),
        ("entry_c08_punct", 60, 600, "texts of 4 (thorough 5) letters, spaces and hyphens with one arbitrary printable ASCII character, widths 1-3"),
        ("entry_c08_big", 60, 600, "texts of 12 or 48 words, two of them of any length from 1 to 11, on 8 (thorough 76) widths from 5 to 80, in two colours"),
    ]),
    "C09": ("default", [
        ("entry_c09_add", 90, 900, "all histories of 4 (thorough 5) added lines over three one-character texts (the first line of 0-2 characters), with a change of limit (none, 1-3) or of duplicate stripping before any of them"),
        ("entry_c09_limit", 60, 300, "104 lines with one repetition of any of them, with the default limit and limits none, 1, 2, 99, 100, 101"),
        ("entry_c09_autosave", 30, 300, "up to 4 (thorough 6) lines with intervals none, 1-3, handler absent, present, removed, a change of either at any time, any pattern of handler failures, then drop"),
        ("entry_c09_big", 60, 600, "320 lines with repetitions at 7 (thorough 200) distances, limits none and 6 up to 300, stripping or not; then the limit lowered to 1, 63 or 150, stripping changed or not, and another line"),
    ]),
    "C10": ("default", [
        ("entry_c10_roundtrip", 60, 600, "all files of up to 2 (thorough 3) lines of up to 3 (first) or 1 characters over all of Unicode by UTF-8 length, without newline, final CR or initial BOM, which the format cannot represent"),
        ("entry_c10_bound", 30, 300, "missing, empty and existing files, intervals none, 1, 2, up to 3 added lines, then drop"),
        ("entry_c10_crash", 60, 300, "the machine stopping at, or an error from, any one file-system operation of two saves and a final save on drop, with unsynced data surviving or not, writes failing after any part of the data; starting from no file, an existing file, or a left-over backup; then a complete further life"),
        ("entry_c10_crash2", 120, 900, "two such interrupted lives in a row"),
        ("entry_c10_long", 30, 300, "a save of 9 kB (several writes), interrupted or failing anywhere, with short writes"),
        ("entry_c10_load", 30, 300, "five states of the file and its auxiliary files, with any one operation of loading it failing"),
        ("entry_c10_write", 30, 300, "write_history_to with any operation failing"),
        ("entry_c10_instance", 60, 600, "a file-bound history with or without an unsaved line, handed to an instance in terminal or pipe mode, possibly a line typed; ended in each of 3 ways; all schedules with one deviation (thorough 2)"),
        ("entry_c10_notice", 30, 300, "all sequences of 3 (thorough 4) of a typed letter with return, a letter, up and the passage of three seconds, saving at every line or every other line, with every pattern of failures"),
        ("entry_c10_big", 60, 300, "files of 1-100 short lines, of lines of every length from 2 to 301, and of lengths around 1024, 4096, 8192 and 16384"),
    ]),
    "C02": ("default", [
        ("entry_c02_tty", 120, 900, "two threads sending two lines each (symbolic letters, all kinds of line from the first), all schedules with one deviation (thorough 2) from the round-robin order, with each of 7 kinds of other traffic, on a terminal of 5 columns, ended right after the last send"),
        ("entry_c02_three", 60, 900, "three threads sending two lines each (some through the global macros), all schedules with one deviation (thorough 2)"),
        ("entry_c02_pipe", 60, 900, "two threads sending two lines each of any kind in pipe mode, whole or short writes, with 6 kinds of other traffic, all schedules with one deviation (thorough 2)"),
        ("entry_c02_many", 60, 600, "30-34, 62-66, 127-131 or 254-258 (thorough any number up to 1100) lines sent at once, then the end, on a terminal or in pipe mode"),
    ]),
    "C05": ("default", [
        ("entry_c05_keys", 90, 900, "all sequences of 2 (thorough 3) arbitrary ASCII bytes and possibly escape, one by one or together, after 0-2 letters with the cursor at the end or inside"),
        ("entry_c05_queue", 60, 600, "all sequences of 4 (thorough 5) of 12 keys, in one piece or byte by byte"),
        ("entry_c05_custom", 60, 600, "all sequences of 5 (thorough 7) values sent in four ways and keys"),
        ("entry_c05_read", 60, 600, "two responses, each read in any of 6 ways, before or after the keys are typed"),
        ("entry_c05_many", 60, 600, "35 numbers of keys from 1 to 258 (thorough all up to 600) in any of 8 rotations, unread for a while, with or without as many values of the program's"),
    ]),
    "C13": ("default", [
        ("entry_c13_time", 60, 600, "all sequences of 4 (thorough 5) notices of 4 durations, passages of time of 4 lengths, and letters"),
        ("entry_c13_keys", 60, 600, "a notice of up to 2 letters dismissed by every ASCII byte, escape or any of 7 escape sequences, over an empty or half-typed input; then another notice seen out"),
        ("entry_c13_long", 30, 300, "notices of three nearly unlimited durations, possibly followed by a short one"),
        ("entry_c13_many", 60, 300, "1-70 notices at once, or each replaced, dismissed or seen out"),
        ("entry_c13_repeat", 60, 600, "all sequences of 3 (thorough 4) of notices, time, keys, lines, and input refused or allowed, 5 (thorough 8) times over"),
    ]),
    "C14": ("default", [
        ("entry_c14_in", 120, 900, "all inputs of 0-5 (thorough 6) arbitrary ASCII bytes cut into up to three pieces, with interrupted reads, with and without end of input, for each of 5 reasons for pipe mode"),
        ("entry_c14_bytes", 90, 900, "all inputs of 1-2 (thorough 3) arbitrary bytes before a line break and another line, cut likewise"),
        ("entry_c14_out", 60, 600, "all sequences of 3 (thorough 4) calls of 9 kinds in any style, whole or byte-wise writes"),
        ("entry_c14_text", 60, 600, 'a printed or wrapped line of 0-2 (thorough 3) arbitrary characters of up to three bytes, newlines and control characters, then another of 0-1'),
        ("entry_c14_big", 60, 600, "1-90 (thorough 1-600) short lines, and lines of lengths around 16, 64, 128, 256 (thorough all up to 180), 1024, 2048, 4096, 8192 and 16384, ASCII or ending in any longer character, both terminators, in one or two pieces, input and output"),
    ]),
    "C15": ("default", [
        ("entry_c15_end", 60, 600, "all sequences of 2 (thorough 3) operations of 10 kinds, ended in each of 3 ways, then two further lives, or each of 6 sends on a clone"),
        ("entry_c15_race", 60, 900, "ended while typed input, a lone escape, a notice, a suspension or a status is under way; all schedules with one deviation (thorough 2); then a further life"),
        ("entry_c15_unread", 60, 900, "ended after any ASCII byte (thorough: two) whose response is unread, possibly a value of the program's, with or without a notice or suspended function before the last line; all schedules with one deviation (thorough 2)"),
        ("entry_c15_two", 60, 900, "one thread ending the instance while another creates one; all schedules with one deviation (thorough 2) and four relative delays"),
        ("entry_c15_pipe", 90, 900, "pipe mode, ended with input under way; all schedules with 2 (thorough 3) deviations; then a further life"),
        ("entry_c15_hook", 60, 300, "0-2 lives on an ANSI or VT52 terminal or in pipe mode, each suspended in either way, hung up or not, and ended in any of 3 ways; or the hook examined while suspended"),
        ("entry_c15_panic", 60, 300, "a panic of the main thread, or in a suspended function, after a display operation of 10 kinds, on an ANSI or VT52 terminal"),
        ("entry_c15_async", 30, 300, "read with 0-2 reads given up and ended in two ways within a tokio runtime, after any of 8 operations, in terminal or pipe mode"),
        ("entry_c15_dead", 60, 300, "end of input, failing input or failing output; 0, 4 or 8 reads by read_blocking and one in each of 5 ways"),
        ("entry_c15_many", 60, 300, "2-21 lives in a row, ended in each of 3 ways"),
    ]),
    "C17": ("default", [
        ("entry_c17_any", 60, 900, "all sequences of 4 (thorough 5) alternating keys of 8 kinds followed by a letter, and prompts of 3 texts with all flags"),
        ("entry_c17_again", 60, 600, "all sequences of 3 (thorough 4) prompts over a half-typed input, each displayed or not before the next"),
        ("entry_c17_refuse", 60, 600, "all pairs of arbitrary ASCII bytes, 7 escape sequences or escape while input is refused"),
        ("entry_c17_history", 60, 600, "any prompt while 0-2 lines up in the history, then all sequences of 2 (thorough 3) of up, down and a letter"),
        ("entry_c17_many", 60, 300, "1-100 prompts, displayed, typed into or not"),
        ("entry_c17_repeat", 60, 600, "all sequences of two prompts of 3 texts with all flags and one (thorough two) of 8 keys, 4 (thorough 6) times over"),
    ]),
    "C04": ("default", [
        ("entry_c04_tokens", 90, 900, "all sequences of 3 (thorough 4) of 12 kinds of key (letters, two- to four-byte characters, control keys, escape, escape sequences, unsupported sequences), in up to 2 (thorough 3) pieces with or without pauses of half the escape delay"),
        ("entry_c04_cuts", 90, 900, "all pairs of 13 kinds of key in up to 4 (thorough 7) pieces, then a lone escape"),
        ("entry_c04_chars", 120, 900, "all texts of 2 (thorough 3) characters over all of Unicode (except control characters and separators) by UTF-8 length, in up to 4 (thorough 5) pieces"),
        ("entry_c04_any", 60, 600, "all strings of 2 (thorough 3) bytes in up to 2 pieces, followed by silence and typed lines"),
        ("entry_c04_high", 60, 600, "all strings of 4 (thorough 5) bytes above 127, escapes, brackets and semicolons, likewise"),
        ("entry_c04_csi", 60, 600, "escape and any printable character, any control key or any of three longer characters, or escape, bracket, 0-2 (thorough 3) of any parameter or intermediate bytes and any final byte, in up to 3 pieces, in the middle of a text"),
        ("entry_c04_long", 60, 300, "texts of 8 lengths around 256 and 512 (thorough also 1024) bytes at once, with any of 6 multi-byte keys at the boundary"),
        ("entry_c04_stray", 60, 600, "every incomplete character of 1-3 bytes, or any stray byte above 127, between a letter and each of 4 characters of 1-4 bytes, in up to three pieces"),
        ("entry_c04_wait", 30, 300, "1-3 bytes above 127 followed at once by control keys"),
    ]),
    "C11": ("default", [
        ("entry_c11_swap", 120, 900, "histories of 0-3 lines of one letter (of two, so with repetitions), possibly a typed letter, then all sequences of 5 (thorough 6) of up, down, a letter and replacement by any history of 0-2 lines, then all the way down"),
        ("entry_c11_keys", 60, 600, "all sequences of 7 (thorough 9) of up, down, a letter (of two) and return"),
        ("entry_c11_discard", 60, 600, "histories of 0-2 lines of one letter, all sequences of 5 (thorough 7) of up, down, a letter, control-G, control-D and control-U, then all the way down"),
        ("entry_c11_round", 60, 600, "0-3 typed letters, histories of 0-4 (thorough 6) lines, all the way up, part of the way down, then return, an edit and return, or all the way down and return"),
        ("entry_c11_race", 90, 900, "one to three keys in a history of 0-3 lines, then a key and a replacement by 0-3 lines at the same time, in all schedules with one deviation (thorough 2), then all the way down"),
        ("entry_c11_odd", 30, 300, "lines of the history with control, wide and combining characters"),
        ("entry_c11_big", 60, 600, "histories of 40, 99, 100, 101 and 130 lines, 12 (thorough all) numbers of steps up, then all the way down or the line visited submitted"),
        ("entry_c11_repeat", 60, 600, "all sequences of 3 (thorough 4) of up, down, a letter, return, control-G and replacement, 4 (thorough 6) times over"),
    ]),
    "C12": ("default", [
        ("entry_c12_tabs", 90, 900, "all sequences of 3 (thorough 4) of Tab with any of 15 answers, a letter, cursor left (two keys) and backspace, then return"),
        ("entry_c12_count", 30, 300, "0-3 Tabs, then every ASCII byte, any of 7 escape sequences or escape, then two Tabs"),
        ("entry_c12_text", 90, 900, "all texts of 0-3 (thorough 4) letters, spaces, wide, two-byte and combining characters, all cursor positions, all answers including output and notices from within the completor, then another key and Tab"),
        ("entry_c12_set", 60, 600, "all sequences of 4 (thorough 5) of Tab, completors set and removed, input allowed and refused, notices"),
        ("entry_c12_many", 60, 300, "1-260 Tabs in a row"),
        ("entry_c12_repeat", 60, 600, "all sequences of 3 (thorough 4) of Tab with any of 6 answers, a letter, backspace, return, and input refused or allowed, 4 times over"),
    ]),
    "C16": ("default", [
        ("entry_c16_script", 120, 900, "all sequences of 2 (thorough 3) display operations of 10 kinds (as in C01) before, and one after, a function that prints a line or not"),
        ("entry_c16_order", 60, 600, "all sequences of 5 (thorough 6) of functions, lines, statuses and pauses, with and without a status, prompt and typed text"),
        ("entry_c16_modes", 30, 300, "two (thorough three) arbitrary bytes anywhere among seven bytes of the terminal's original modes, suspended by functions and by control-Z"),
        ("entry_c16_stop", 120, 900, "all sequences of 2 (thorough 3) display operations of 10 kinds, one or two control-Z, and another operation"),
        ("entry_c16_typed", 60, 600, "all texts of 0-3 (thorough 4) letters, spaces, wide, two-byte and combining characters, all cursor positions, possibly one line up in the history, then suspended either way and each of 6 keys"),
        ("entry_c16_long", 60, 600, "all sequences of 3 (thorough 4) requests and keys of 7 kinds while a function runs, or the instance ended then"),
        ("entry_c16_race", 30, 600, "two threads with lines and a function each, in all schedules with one deviation (thorough 2)"),
        ("entry_c16_many", 60, 300, "2-41 suspensions of one or both kinds"),
        ("entry_c16_repeat", 60, 600, "a (thorough two) display operation of 10 kinds, a suspension of either kind and another operation, 5 (thorough 9) times over"),
    ]),
    "C18": ("default", [
        ("entry_c18_script", 90, 900, "all sequences of 3 display operations of 10 kinds (as in C01) on 3 columns (thorough: also white on black)"),
        ("entry_c18_wide", 60, 600, "one status, prompt or line of up to 3 (thorough 4) letters, wide and combining characters and line breaks after another, on 2-3 (thorough 4) columns"),
        ("entry_c18_colors", 90, 900, "two characters, each with every foreground or background (thorough: or both), inverse or not, in a line or prompt (thorough: also status and notice), with 2, 4 and 16 colours, black on white and reverse"),
        ("entry_c18_styled", 60, 600, "two prompts or lines with 2 (thorough 3) of 5 attribute changes each, then a typed character"),
        ("entry_c18_names", 30, 300, "16 names of terminals with 5 sizes each"),
        ("entry_c18_wob", 30, 300, "12 values of ATARI_WHITE_ON_BLACK"),
        ("entry_c18_keys", 60, 600, "all pairs (thorough triples) of ASCII bytes with letters and possibly escapes between them"),
        ("entry_c18_decode", 60, 600, "all sequences of 2 (thorough 3) of letters, unsupported sequences, identifications, escapes before control keys and bytes above 127, in up to 4 (thorough 5) pieces with or without pauses of half the escape delay, then a lone escape"),
        ("entry_c18_bytes", 30, 600, "all strings of 2 (thorough 3) bytes in up to two pieces, then silence and a line"),
        ("entry_c18_end", 30, 300, "ended in any of 3 ways after 1 (thorough 2) operations of 10 kinds, then two further lives"),
        ("entry_c18_race", 60, 600, "ended while something is under way, in all schedules with one deviation (thorough 2), then a further life"),
        ("entry_c18_dead", 30, 300, "end of input and failing input"),
        ("entry_c18_suspend", 30, 300, "suspended either way between 1 (thorough 2) operations of 10 kinds and another"),
        ("entry_c18_big", 60, 600, "as entry_c01_big, on 24 (thorough also 40 and 80) columns, 2 and 16 colours"),
        ("entry_c18_repeat", 60, 600, "all pairs (thorough triples) of the 10 kinds of operation, 6 (thorough 12) times over"),
    ]),
    "C19": ("cap", [
        ("entry_c19_lines", 60, 600, "all texts of 0-5 (thorough 6) letters, newlines and carriage returns, in up to three pieces, each read before the next or not, possibly ended at once"),
        ("entry_c19_bytes", 90, 900, "all texts of 4 (thorough 5) of 9 bytes (ASCII, newline, leading, continuation and invalid bytes), in up to two pieces"),
        ("entry_c19_long", 90, 900, "3 (thorough 4) lines of any of 11 lengths from 0 to 256 around the size of the buffer, read together or one by one, then an unfinished line and the end"),
        ("entry_c19_length", 30, 300, "a line of any of 14 lengths from 511 to 8193 around powers of two and between, at once or in two parts"),
        ("entry_c19_mixed", 90, 900, "two lives of three operations of 5 kinds (captured lines, printed lines, prompts, lines across writes, keys)"),
        ("entry_c19_race", 60, 900, "one or two threads writing, then the end, in all schedules with one deviation (thorough 2)"),
        ("entry_c19_dead", 60, 300, "all texts of 0-4 (thorough 5) letters, newlines and invalid bytes in up to 3 pieces after the end of the terminal's input or once it fails, with or without captured lines and a part of a line before, then the end"),
        ("entry_c19_not", 30, 300, "not captured when standard error is not a terminal, or in pipe mode"),
        ("entry_c19_many", 90, 600, "270 (thorough 700) bytes in lines of every length from 0 to 19 (thorough 35), in pieces of 7 sizes"),
    ]),
    "C20": ("default", [
        ("entry_c20_out", 60, 600, "a line of 3 (thorough 4) characters, each preceded by one of 5 attribute changes, with another at the end, then a plain line"),
        ("entry_c20_prompt", 60, 600, "one such prompt of 1-2 characters after another, then a typed character"),
        ("entry_c20_mixed", 90, 900, "2 (thorough 3) statuses, prompts or notices of 1-4 characters with attribute changes, one after another, then a key"),
        ("entry_c20_styles", 60, 600, "two characters in all pairs of the 32 styles, with and without a background, in a line, status, prompt and notice"),
        ("entry_c20_colors", 90, 900, "two characters in all pairs of all foregrounds and backgrounds, plain and bold, in a line, status, prompt and notice"),
        ("entry_c20_big", 60, 600, "lines, statuses and prompts of 39, 40, 41, 79 and 80 (thorough also 100 and 130) characters on 40 columns with changes of attributes every 1-3"),
    ]),
}

LEVEL = {}
NOTE = {}
