#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "No key sequence crashes or hangs the line editor",
 "Whatever keys are pressed, in either key map, with any history (empty, multi-line and non-ASCII entries included), completion candidates, prompt, initial text and terminal width, every key press is handled to completion: the editor never panics and never loops forever. After every key press the cursor lies between the start and the end of the line being edited, and in vi normal mode it lies on a character (or at 0 if the line is empty).",
 ["inputs", "programs", "configurations"], "every key sequence over the whole key alphabet, every history/completer/prompt/width configuration (a width of 0 means unknown; counts of millions of insertions, which really are carried out, aside)",
 "The unit tests run about 150 fixed key scripts on ASCII text at one width; they never combine search, suggestions, completion lists, odd history entries and operators.",
 ["src/editor.rs", "src/keymap/mod.rs", "src/keymap/emacs.rs", "src/keymap/vi.rs", "src/buffer.rs"],
 [("key dispatch", "src/keymap/mod.rs KeyMap::handle_key"), ("cursor clamping before every redraw", "src/editor.rs Editor::display_impl"), ("range arithmetic on the buffer", "src/buffer.rs Buffer::remove/insert")],
 [("cursor", "gap index in the current line", "src/editor.rs Editor.cursor"), ("mode stack", "vi pending modes", "src/keymap/vi.rs ModeStack")],
 ["KeyMap::handle_key", "Editor::cursor", "Editor::current_buffer"])

prop("C02", "Emacs editing keys transform the line and cursor as documented",
 "In the Emacs key map every bound key changes the text and the cursor exactly as documented: characters are inserted at the cursor, Backspace/Ctrl-H and Delete/Ctrl-D remove the character before/after it, Ctrl-U/Ctrl-K/Ctrl-W/Alt-Backspace remove to the line start, to the line end and the word before the cursor, and Left/Right/Ctrl-B/Ctrl-F, Home/End/Ctrl-A/Ctrl-E and Alt-B/Alt-F move by character, to the line ends and by word (words are separated by unescaped spaces, or as the context's word divider says). Keys without a binding change nothing.",
 ["inputs", "programs"], "every sequence of editing keys on every text over an alphabet with word characters, spaces, backslashes and non-ASCII characters",
 "Tests press one or two Emacs keys on one ASCII line each; the quantifier is over all texts, cursor positions and key histories.",
 ["src/keymap/emacs.rs", "src/editor.rs", "src/context.rs"],
 [("key table", "src/keymap/emacs.rs Emacs::handle_key_core"), ("word boundaries", "src/context.rs get_buffer_words, src/editor.rs CursorPosition::get")],
 [], ["Editor::current_buffer", "Editor::cursor"])

prop("C03", "Vi motions move where vi says, honour counts, and never change text",
 "In vi normal mode the motions h l 0 ^ $ w W b B e E ge gE f F t T ; , (and the arrow, Home, End, Space and Backspace keys) put the cursor where vi puts it on a single line, a count N acts as N repetitions (f/t: the N-th occurrence), a motion that finds no target leaves the cursor where it was (or at the line's end for forward word motions, its start for backward ones), and no motion changes the text.",
 ["inputs", "programs"], "every text up to a length over {keyword, punctuation, blank, non-ASCII} characters, every cursor position, motion and count, and every short motion sequence",
 "Each motion has a handful of example lines in the tests; boundary combinations (ends of line, runs of blanks, counts past the end) are a product no example list covers.",
 ["src/keymap/vi.rs"],
 [("word motions", "src/keymap/vi.rs vi_move_word, vi_move_word_end"), ("character search", "src/keymap/vi.rs find_char, find_char_rev"), ("counts", "src/keymap/vi.rs Vi::move_count*")],
 [("count", "pending repeat count", "src/keymap/vi.rs Vi.count")], ["Editor::cursor", "Editor::current_buffer"])

prop("C04", "Vi changes edit exactly the text the command names",
 "In vi normal mode d{motion} and c{motion} remove exactly the text between the cursor and where the motion goes (including the end character for e E ge gE f t and forward ; ,), with counts before operator and motion multiplied; dd/cc, D/C, x, s, r, ~ (with counts) and the insert commands i a I A change exactly what vi changes. Commands that enter insert mode leave the editor there, all others return to normal mode, and a command whose motion has no target or that is abandoned changes nothing.",
 ["inputs", "programs"], "every operator x motion x count on every short text and cursor, and every short sequence of such commands (dge and cge at the line start aside, where vi has no target and this editor takes the character)",
 "Tests cover a few operator/motion pairs on one line each; failing motions, boundary positions, count products and interplay between consecutive commands are untested.",
 ["src/keymap/vi.rs", "src/editor.rs"],
 [("operator application", "src/keymap/vi.rs Vi::pop_mode_after_movement"), ("span removal", "src/editor.rs delete_until, delete_until_inclusive"), ("mode stack", "src/keymap/vi.rs ModeStack")],
 [("mode stack", "pending operator/insert/replace modes", "src/keymap/vi.rs")], ["Editor::current_buffer", "Editor::cursor"])

prop("C05", "Vi dot repeats the last change as if it were typed again",
 "In vi normal mode '.' has the same effect on the text and cursor, and leaves the editor in the same mode, as typing the most recent complete change (x r ~ s i a I A D C d{motion} c{motion}, with the text typed and the closing Esc) again at the cursor, with its count or with the count given to '.' instead, which is then remembered. Text typed in insert mode after the cursor was moved there counts as an insertion of its own, without a count.",
 ["inputs", "programs"], "typed text of plain characters, Backspace and Delete: every change command with and without counts, every position where it is repeated, every short sequence of changes, motions and dots",
 "Tests repeat a few commands on one line; the recording of keys depends on the whole preceding command history.",
 ["src/keymap/vi.rs"],
 [("replay", "src/keymap/vi.rs Vi::repeat"), ("recording", "src/keymap/vi.rs last_command/current_command/last_insert/last_count")],
 [("last_command", "recorded keys", "src/keymap/vi.rs Vi.last_command")], ["Editor::current_buffer", "Editor::cursor"])

prop("C06", "Buffer undo and redo walk exactly through the recorded states",
 "For every sequence of insertions, removals, truncations and (nested) groups on a text buffer, each undo outside an open group returns the text to what it was before the latest not-yet-undone change (an edit that changes nothing counts) or complete group, and redo re-applies exactly what was undone; a new change discards what could be redone, and undoing everything (revert) restores the original text.",
 ["histories", "programs"], "every sequence of edit, group, undo and redo operations up to a depth",
 "Tests check single undo/redo steps on one text; the property is about arbitrary interleavings of edits, groups, undos and redos.",
 ["src/buffer.rs"],
 [("action log", "src/buffer.rs Buffer::undo, redo, push_action"), ("revert", "src/buffer.rs Buffer::revert")],
 [("actions", "undo log", "src/buffer.rs Buffer.actions"), ("undone_actions", "redo log", "src/buffer.rs")], ["Buffer::undo", "Buffer::redo", "Display for Buffer"])

prop("C07", "Undo keys step back through earlier states of the line",
 "In both key maps undo (Ctrl-X in Emacs, u in vi normal mode) takes back exactly the latest change that is still in effect - one key press' edit in Emacs; in vi one complete command, where everything typed between entering and leaving insert mode (or since the last cursor movement in it) counts as one, and a search result put into the line counts as two, removing the old text and inserting the new - and puts the cursor at the end of the line; a vi count undoes that many. Undo and revert on a line recalled from history go back at most to the recalled entry.",
 ["histories", "programs"], "every sequence of editing commands, history recalls and undos up to a depth",
 "Undo is tested after single commands; the grouping depends on mode changes, aborts, history moves and repeats before it.",
 ["src/buffer.rs", "src/editor.rs", "src/keymap/vi.rs", "src/keymap/emacs.rs"],
 [("undo groups", "src/keymap/vi.rs set_mode_preserve_last, pop_mode"), ("editor undo", "src/editor.rs Editor::undo/redo/revert"), ("history copy-on-edit", "src/editor.rs cur_buf_mut!")],
 [("hist_buf", "copy of a recalled entry being edited", "src/editor.rs Editor.hist_buf")], ["Editor::current_buffer", "Editor::cursor"])

prop("C08", "Editing never alters stored history; the line in progress survives recall",
 "However a line is edited, recalled, searched, completed, submitted or aborted, the stored history entries stay exactly as they were before the line was read (only an explicit push or load changes them). Text typed on the new line is back, unchanged, when the user returns from the recalled entries to the new line.",
 ["histories", "programs"], "every key sequence mixing recall, editing, search, undo and submission, for every small history",
 "Tests that recall history look at the resulting line only, never at the stored entries, and follow a handful of paths.",
 ["src/editor.rs", "src/history.rs"],
 [("copy-on-edit", "src/editor.rs cur_buf_mut!"), ("result extraction", "src/editor.rs From<Editor> for String, take_exec_buffer")],
 [("hist_buf/hist_buf_valid", "private copy of the recalled entry", "src/editor.rs"), ("new_buf", "line in progress", "src/editor.rs")], ["Context.history", "Editor::current_buffer"])

prop("C09", "Up/Down visit exactly the matching history entries, in order",
 "With an empty new line Up/Down (Ctrl-P/Ctrl-N, vi k/j) walk through all history entries, newest to oldest and back, ending at the new line. With text typed they visit only the other entries containing that text: going up, first those that begin with it, newest first, then those that merely contain it, newest first; Down retraces the same path, and edits made to a recalled entry are dropped when another one is recalled. Alt-< and Alt-> jump to the oldest entry and back to the new line; the cursor is put at the end of the recalled line.",
 ["inputs", "histories", "programs"], "every small history (duplicates, prefixes, substrings), every typed text and every sequence of recall keys (Up and Down after Alt-< with text typed aside: the order is open until Alt->)",
 "Two tests with one history each; stale filter state only shows in sequences that leave and re-enter recall.",
 ["src/editor.rs", "src/history.rs"],
 [("recall", "src/editor.rs move_up, move_down, move_to_start_of_history, move_to_end_of_history"), ("filter", "src/history.rs History::get_history_subset")],
 [("history_subset_index/loc", "filtered positions", "src/editor.rs")], ["Editor::current_buffer", "Editor::current_history_location"])

prop("C10", "Incremental search finds exactly the entries containing the term, in order",
 "After Ctrl-R (Ctrl-S) the editor offers the newest (oldest) history entry containing the typed term; repeating the key or pressing Up/Down steps to the next older/newer containing entry, wrapping around, and editing the term re-filters while staying at or next to the current match. Accepting (Enter, Ctrl-F, or Right at the end) makes the line exactly the offered entry, and with no match leaves the typed term.",
 ["inputs", "histories", "programs"], "every small history and every sequence of search, typing, erasing, stepping and accepting keys",
 "One test follows one path; wrap-around, refiltering and direction changes multiply with history contents.",
 ["src/editor.rs", "src/history.rs"],
 [("search", "src/editor.rs search, refresh_search, accept_autosuggestion"), ("matching", "src/history.rs History::search_index, src/buffer.rs Buffer::contains")],
 [("reverse_search/forward_search", "search direction", "src/editor.rs")], ["Editor::current_buffer", "terminal output"])

prop("C11", "Suggestions show the newest extending entry and enter only when accepted",
 "While a non-empty new line is edited, the suggestion shown is the newest history entry that strictly extends it, and there is none if no entry does. Ctrl-F, or Right with the cursor at the end, turns the line into exactly that entry; no other key, Enter included, ever puts suggested text into the line.",
 ["inputs", "histories", "programs"], "every small history, typed text and key sequence",
 "No test accepts or ignores a suggestion outside search; the suggestion depends on all of history and the current text.",
 ["src/editor.rs", "src/history.rs", "src/keymap/mod.rs"],
 [("choice", "src/editor.rs current_autosuggestion, src/history.rs get_newest_match"), ("acceptance", "src/editor.rs accept_autosuggestion, src/keymap/mod.rs handle_key")],
 [("autosuggestion", "suggestion computed at the last redraw", "src/editor.rs")], ["Editor::is_currently_showing_autosuggestion", "Editor::current_buffer", "terminal output"])

prop("C12", "The screen always shows the prompt, the line and the cursor where they are",
 "After every key press a VT100-style terminal of any width shows, below the untouched earlier output, the (last line of the) prompt followed by the current line and any suggestion, wrapped at the terminal's width, with continuation lines of a multi-line text indented by the prompt's width, nothing left over from earlier redraws, and the terminal cursor on the cell of the editing cursor; once the line is entered, or abandoned with Ctrl-C or Ctrl-D, the cursor is on a line of its own below the text. This holds for prompts with colour codes, colouring closures, text with wide characters, completion lists, and Ctrl-L (after which the screen holds nothing else).",
 ["inputs", "programs", "configurations"], "every key sequence, prompt, text and terminal width in bounds: printable text and newlines, prompts with CSI, OSC and charset escape sequences, a terminal with rows enough",
 "No test looks at the terminal output at all.",
 ["src/editor.rs", "src/util.rs"],
 [("redraw", "src/editor.rs Editor::display_impl"), ("widths", "src/util.rs last_prompt_line_width, remove_codes; src/buffer.rs range_width"), ("completion list", "src/editor.rs print_completion_list")],
 [("term_cursor_line", "row of the terminal cursor relative to the prompt", "src/editor.rs")], ["bytes written to the Tty"])

prop("C13", "Tab completes the word before the cursor and touches nothing else",
 "Tab replaces the word before the cursor by the single candidate, or extends it to the candidates' longest common prefix when that is longer; otherwise it lists the sorted distinct candidates and each further Tab replaces the completed word by the next candidate, wrapping around. Text before the word and after the cursor is never changed, with no candidates nothing changes, Enter with the list open only closes it, and any other key closes it and acts as usual. The completer hears of each completion (BeforeComplete) once, before it is asked for candidates.",
 ["inputs", "programs", "configurations"], "every text, cursor position, candidate set and key sequence in bounds (a common prefix longer than the word but not extending it aside)",
 "Completion has no test at all.",
 ["src/editor.rs", "src/util.rs", "src/complete.rs"],
 [("completion", "src/editor.rs Editor::complete"), ("common prefix", "src/util.rs find_longest_common_prefix"), ("word before cursor", "src/editor.rs get_word_before_cursor")],
 [("show_completions_hint", "open candidate list and position", "src/editor.rs")], ["Editor::current_buffer", "Editor::cursor"])

prop("C14", "Filename completion offers exactly the matching directory entries",
 "For every path prefix the filename completer offers exactly the entries of the directory named by the prefix whose names begin with its last component (case-insensitively when so configured), each as the typed directory part followed by the entry's name, with spaces escaped and a trailing slash on directories; an unreadable or missing directory yields nothing, and no prefix makes it panic.",
 ["inputs", "configurations"], "valid UTF-8 names without backslash: every prefix string up to a length over {name characters, '/', '.', space, backslash, quotes, non-ASCII} in a directory tree, both case modes, relative and absolute",
 "The completer has no tests.",
 ["src/complete.rs"],
 [("completion", "src/complete.rs FilenameCompleter::completions")], [], ["Completer::completions"])

prop("C15", "In-memory history keeps the newest entries, bounded and in order",
 "After any sequence of pushes and limit changes the history in memory is exactly the newest pushed entries in push order, at most the configured maximum after a push, where an entry equal to the newest one is skipped unless duplicates are allowed; lookups (newest entry extending a text, entries containing a text) return exactly the matching positions in order.",
 ["histories", "configurations"], "every sequence of pushes, duplicate removals and limit changes up to a depth, every limit",
 "Tests push a fixed sequence with one limit.",
 ["src/history.rs"],
 [("push", "src/history.rs History::push"), ("lookups", "src/history.rs get_newest_match, get_history_subset, search_index"), ("dedupe", "src/history.rs remove_duplicates")],
 [("buffers", "entries, oldest first", "src/history.rs History.buffers")], ["History.buffers", "History::len"])

prop("C16", "History files round-trip: what is saved is what is loaded, within limits",
 "For every sequence of pushes, saves, loads and re-opens, a newly opened history on the file holds exactly the saved single-line entries (lines starting with '#' are comments), oldest first, the newest up to the file limit. With incremental append every accepted entry is in the file as soon as push returns, also across the periodic compaction; with duplicate loading off each entry appears once, at its latest position (whether the limit counts before or after is open); an appending session then also keeps the file itself compact: after at least every thirty of its own appends it is rewritten with each entry once and no more than the file limit. A reload brings in what others appended, and opening another file replaces the entries in memory.",
 ["histories", "configurations"], "every operation sequence up to a depth over small entry sets, all flag combinations and limits, including runs across the compaction threshold",
 "Tests write one file and read one file; flag combinations and the every-30-writes compaction are never exercised.",
 ["src/history.rs"],
 [("append", "src/history.rs History::push"), ("save", "src/history.rs overwrite_history, commit_to_file*"), ("load", "src/history.rs load_history_file_test"), ("compaction", "src/history.rs deduplicate_history_file")],
 [("file_size", "size at last load/append", "src/history.rs History.file_size"), ("compaction_writes", "appends since compaction", "src/history.rs")], ["file contents", "History.buffers"])

prop("C17", "Concurrent sessions appending to one history file lose and mix nothing",
 "When several sessions append incrementally to the same history file, under every interleaving of their file operations each accepted entry ends up in the file exactly once, as a line of its own, in each session's own order; and a shared session that reloads sees a prefix-consistent set of whole entries.",
 ["schedules", "histories"], "every interleaving of the system calls of 2-3 sessions with 1-3 operations each, started on a well-formed file or none",
 "All tests use one session.",
 ["src/history.rs"],
 [("append", "src/history.rs History::push (O_APPEND, one buffered write)"), ("reload on size change", "src/history.rs load_history")],
 [("history file", "shared by processes", "file system")], ["file contents", "History.buffers"])

prop("C18", "A crash while saving history never damages entries already in the file",
 "If the process dies at any point while an entry is being appended, or while the file is being rewritten, every entry that was in the file and is still within the limits is still loaded afterwards, complete and in order, with at most the entry being written missing or cut short.",
 ["crash_points", "histories"], "death of the process (not of the machine): every system-call boundary and every torn-write length of every save operation in short histories",
 "No test interrupts a save.",
 ["src/history.rs"],
 [("append", "src/history.rs History::push"), ("rewrite", "src/history.rs overwrite_history, deduplicate_history_file")],
 [("history file", "on-disk entries", "file system")], ["file contents after each crash point"])

prop("C19", "Terminal I/O errors surface as errors and corrupt nothing",
 "If any single read from or write to the terminal fails while a line is being read, the call returns that error (it does not panic, hang or return a line as if entered), the stored history is unchanged, and a later read on the same context works normally (interrupted operations may be retried, and a failed width query replaced by a default width); end of input returns the line as typed so far.",
 ["fault_sequences", "programs"], "every key script x every failing terminal operation (read, write, flush, width query)",
 "No test injects a terminal failure.",
 ["src/editor.rs", "src/context.rs", "src/keymap/mod.rs", "src/keymap/vi.rs"],
 [("error propagation", "src/editor.rs display_impl, src/context.rs handle_keys, src/keymap/*"), ],
 [], ["result of read_line", "Context.history"])

prop("C20", "Enter returns exactly the edited line; Ctrl-C, Ctrl-D, EOF end it as documented",
 "Pressing Enter ends the read and returns exactly the text of the current line (new or recalled, never the suggestion), except that directly after a backslash it inserts a newline and editing goes on, and with a candidate list open it only closes the list. Ctrl-C always ends the read with an Interrupted error, Ctrl-D with UnexpectedEof exactly when the line is empty, and end of input returns the text so far; each key press is announced to the handler once before and, if it completes, once after it is handled.",
 ["inputs", "programs"], "every key sequence in bounds ended by each of these keys",
 "Tests use these keys on one fixed line through partial entry points; the full read loop is never run.",
 ["src/context.rs", "src/editor.rs", "src/keymap/mod.rs"],
 [("read loop", "src/context.rs read_line_with_init_buffer, handle_keys"), ("newline", "src/editor.rs handle_newline"), ("dispatch", "src/keymap/mod.rs handle_key"), ("result", "src/editor.rs From<Editor> for String")],
 [], ["result of read_line", "Completer::on_event"])

prop("C21", "Word splitting and cursor classification partition every line",
 "For every line the default word splitter returns the maximal runs of characters other than the space (an escaped space belongs to its word) as ordered, disjoint, non-empty ranges, and for every cursor position exactly one classification holds - left edge, right edge or inside of a numbered word, or blank space between the numbered neighbouring words - and it is the right one.",
 ["inputs"], "every string up to a length over {letter, blank, backslash, non-ASCII} and every cursor position",
 "Nine examples in the tests.",
 ["src/context.rs", "src/editor.rs"],
 [("splitter", "src/context.rs get_buffer_words"), ("classification", "src/editor.rs CursorPosition::get")], [], ["get_buffer_words", "CursorPosition::get"])

prop("C22", "A buffer behaves as the plain text it holds",
 "Building a buffer from a string and converting it back gives the same string, and every query and edit on a buffer (length, width, lines, ranges, characters around the cursor, last argument, prefix and substring tests, printing, insertion, removal, truncation, copying) agrees with the same operation on that string; buffers with the same text are equal and hash equally.",
 ["inputs", "programs"], "every text up to a length over an alphabet with ASCII, newline, blank, wide and combining characters, every argument",
 "Tests try one ASCII string per operation.",
 ["src/buffer.rs"],
 [("representation", "src/buffer.rs Buffer"), ("queries", "src/buffer.rs starts_with, contains, last_arg, width, lines, print_rest")], [("data", "characters", "src/buffer.rs Buffer.data")], ["Buffer methods"])

prop("C23", "The vi mode indicator in the prompt tells the truth",
 "With a mode-indicating prompt, whenever no vi command is pending the prompt on the screen shows the insert indicator exactly when a typed character would be inserted into the line and the normal indicator otherwise, also after aborted commands, repeats, history moves and prompt replacement; a prompt without indicator never changes.",
 ["inputs", "programs"], "every vi key sequence in bounds",
 "No test looks at the prompt after a mode change.",
 ["src/keymap/vi.rs", "src/editor.rs"],
 [("mode display", "src/keymap/vi.rs set_editor_mode, src/editor.rs set_vi_mode, set_prompt")], [("vi_status.mode", "displayed mode", "src/editor.rs")], ["terminal output"])

prop("C24", "Alt-. recalls last arguments and replaces only what it inserted",
 "In the Emacs key map Alt-. inserts at the cursor the last space-separated word of the newest history entry, or of the recalled entry itself when on one, and each immediately following Alt-. replaces exactly the previously inserted word by the last word of the next older entry, stopping at the oldest; all other text stays as it was. Any other key ends the sequence.",
 ["inputs", "histories", "programs"], "every small history (blank entries included), every text and cursor position, every key sequence in bounds",
 "Alt-. has no test.",
 ["src/keymap/emacs.rs", "src/buffer.rs"],
 [("recall", "src/keymap/emacs.rs handle_last_arg_fetch"), ("last word", "src/buffer.rs Buffer::last_arg")], [("last_arg_fetch_index", "entry last used", "src/keymap/emacs.rs")], ["Editor::current_buffer", "Editor::cursor"])

prop("C25", "The editor's operations, called by a program, do what they say",
 "A program that drives the editor through its public operations (insert_str_after_cursor, insert_chars_after_cursor, insert_after_cursor, delete_before_cursor, delete_after_cursor, delete_all_before_cursor, delete_all_after_cursor, delete_until, delete_until_inclusive, delete_word_before_cursor, move_cursor_left/right/to, to the line's ends and through the history, undo, redo, revert, search, accept_autosuggestion, clear, complete, handle_newline, current_buffer_mut followed by display), between key presses or from its event handler (before a key, before a completion, after a key), sees exactly the text and cursor each operation names: positions count characters, arguments beyond the line act as its end, delete_until removes what lies between the cursor and the position and delete_until_inclusive the later of the two characters as well. No operation panics, stored history stays as it was, and the text returned at the end is the current line.",
 ["inputs", "programs"], "every sequence of public operations and key presses up to a depth, every position argument up to usize::MAX, made as the key maps make them (an open candidate list is skipped before another operation)",
 "The tests call a few operations once or twice on short ASCII lines; key maps never pass most arguments, and redo is not reachable from any key.",
 ["src/editor.rs", "src/buffer.rs"],
 [("operations", "src/editor.rs impl Editor"), ("undo, redo, revert", "src/editor.rs, src/buffer.rs")],
 [("cursor", "gap index in the current line", "src/editor.rs Editor.cursor")], ["Editor::current_buffer", "Editor::cursor", "String::from(Editor)"])

prop("C26", "Colours mark what they are meant to mark, and nothing else",
 "After every key press outside a history search the text typed by the user is shown in the default colours, or exactly as the colouring closure renders each typed line; all suggested text is shown in one other colour, and of an open candidate list exactly the selected candidate is highlighted. After each redraw the terminal's colours are back at their defaults.",
 ["inputs", "programs", "configurations"], "every key sequence, text, suggestion, candidate set and width in bounds, prompts that reset their own colours",
 "No test looks at the terminal output, let alone at colours.",
 ["src/editor.rs"],
 [("line colours", "src/editor.rs display_impl"), ("highlighted candidate", "src/editor.rs print_completion_list")], [], ["bytes written to the Tty"])

prop("C27", "On a real terminal line editing works as on the scripted one",
 "A Context on the process' terminal puts it into raw mode while it lives and restores the modes it found when dropped; the bytes a terminal sends become the keys they stand for, whatever they are cut into, and a lone escape byte is the Esc key. What is shown and returned is what the scripted terminal gets for the same keys, at the width the terminal has at each redraw (80 when it reports none), and without a terminal for output there is an error instead.",
 ["inputs", "programs", "configurations"], "every sequence of byte strings from a list of keys up to a depth, several widths and changes of width, on a pseudo-terminal",
 "No test uses a terminal.",
 ["src/context.rs"],
 [("terminal", "src/context.rs Tty implementation, Context::new")], [], ["pseudo-terminal output and modes", "result of read_line"])

prop("C28", "A shared history shows other sessions' entries, and stays put while in use",
 "In a session that shares its history file, the first step from the new line into the history of each line read (Up, or a search), and the first after coming back to the new line with Down, goes by what is in the file at that moment, entries saved by other sessions included. Apart from such steps away from the new line the history in memory never changes while a line is edited: an entry being looked at, a search and its matches stay where they are, whatever others save. A session that does not share never takes over entries from the file while a line is edited.",
 ["inputs", "histories", "programs", "configurations"], "every sequence of key presses, of entries saved by other sessions and of replacements of the file (compaction), over several lines entered one after the other, for several settings and initial files, with incremental append",
 "No test shares a history file; what is shown depends on when others save, relative to recalls, searches and edits.",
 ["src/editor.rs", "src/history.rs"],
 [("reload on recall", "src/editor.rs move_up, search, freshen_history"), ("reload", "src/history.rs load_history")],
 [("history_fresh", "whether the file has been looked at", "src/editor.rs")], ["Editor::current_buffer", "Editor::current_history_location", "Context.history"])

prop("C29", "Every line is read as if it were the first one",
 "Reading a line on a context that has read lines before - entered, given up with Ctrl-C or Ctrl-D, ended by end of input or by a terminal error, with other key bindings, prompts, widths or colours - gives the same result, consumes the same keys, prints the same bytes and asks and tells the completer the same as on a new context with the same history, and what one context does has no effect on another one.",
 ["programs", "histories", "configurations"], "every sequence of up to three or four lines out of about sixty (648 with settings and failures) on one context or two in turn",
 "Tests use a new context for every line.",
 ["src/context.rs", "src/editor.rs", "src/keymap/vi.rs", "src/keymap/emacs.rs"],
 [("read loop", "src/context.rs read_line_with_init_buffer"), ("state per line", "src/editor.rs Editor::new_with_init_buffer; src/keymap/*: new")],
 [], ["result of read_line", "bytes written to the Tty", "Context.history", "Completer calls"])

prop("C30", "A program's own key map is handed its keys, and only those, and its word counts",
 "A line read through EditorContext::handle_keys with a key map of the program's own (a type implementing KeyMap): init is called once, before the first key, also on a prefilled line, and what it does to the line stays; Ctrl-C, Tab, Enter, Ctrl-R, Ctrl-S, Ctrl-D on an empty line, Ctrl-F while something is suggested, and Right at the end of the line while something is suggested do what they do with the library's key maps and are not handed to it; every other key is handed to handle_key_core exactly once, in the order typed (Ctrl-H as Backspace), between the events announced before and after it, and what it calls on the editor takes effect as named. An error from init or from the key map, of whatever kind, ends the read with that error at once; a key map that overrides handle_key is handed every key and ends the line by saying so. No further key is consumed after the line has ended, and stored history stays as it was.",
 ["programs", "inputs", "histories"], "every sequence of keys up to a depth, every key there is (in pairs), several key maps, prefilled lines, histories, candidate sets and init calls",
 "The tests use one key map that does nothing, with three keys; what a key map is handed depends on the line, the suggestion, the cursor and the search of the moment.",
 ["src/keymap/mod.rs", "src/context.rs"],
 [("keys common to all key maps", "src/keymap/mod.rs KeyMap::handle_key"), ("read loop", "src/context.rs handle_keys")],
 [], ["calls of KeyMap::init and handle_key_core", "Completer::on_event", "result of handle_keys", "Editor::current_buffer"])

prop("C31", "A file operation that fails loses no history that was there",
 "If any single operation on the history file fails (open, read, write after any number of bytes, seek, file status, rename), or that one and all that follow it in the same call, while a line is pushed, the file is compacted, saved, or the history is loaded: nothing panics; every entry that was in the file and is within the limits is still loaded from it afterwards, complete and in order, with at most the entry being written missing or cut short, and never joined to another; a push leaves the history in memory as it does otherwise, a save as it does otherwise or untouched; a load that reports success holds what the file holds (or, where an unchanged file needs no reading, what it held), one that reports an error has changed nothing; and once the file can be used again, what is pushed or saved in the same session is in the file, and a load finds what another session has added.",
 ["fault_sequences", "histories"], "every operation on the history file, looks included, and every torn length of a write (of writes beyond 10 KB, some), of short histories; once, and to the end of the call",
 "No test makes a file operation fail.",
 ["src/history.rs"],
 [("load", "src/history.rs load_history_file_test"), ("compaction", "src/history.rs deduplicate_history_file"), ("append", "src/history.rs History::push"), ("rewrite", "src/history.rs rewrite_file")],
 [("history file", "on-disk entries", "file system")], ["file contents after the failure", "History.buffers", "result of load_history"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
