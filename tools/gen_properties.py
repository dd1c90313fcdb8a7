#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "No key sequence panics or drives the cursor out of the text",
 "For every sequence of key events, in Emacs or Vi bindings, with any history, completer results, word divider, initial text, prompt, highlighter and terminal width, handling the keys never panics. "
 "After every key the cursor is between 0 and the length of the current text, and whenever Vi normal mode holds and the text is non-empty the cursor is on a character of it. "
 "A single key only does work proportional to the text, the history and the count that was typed (it never loops).",
 ["inputs", "histories", "configurations"],
 "all finite key sequences x bindings x history contents (incl. empty, multi-line and multi-byte entries) x completer outputs x initial buffers x terminal widths",
 "The ~150 keymap tests run short hand-written ASCII key sequences at one width, almost all on a non-empty buffer; panics sit in rare combinations (operator on an empty line, search hit in multi-byte text, completion while an operator is pending).",
 ["src/keymap/mod.rs", "src/keymap/vi.rs", "src/keymap/emacs.rs", "src/editor.rs"],
 [("cursor clamping on redraw", "src/editor.rs display_impl"), ("range arithmetic of deletions", "src/editor.rs delete_until*, src/buffer.rs remove_raw"), ("vi mode stack", "src/keymap/vi.rs")],
 ["KeyMap::handle_key", "Editor::cursor", "Editor::current_buffer", "EditorContext::read_line_with_init_buffer"],
 [("cursor", "index between characters", "src/editor.rs Editor")])

prop("C02", "Emacs keys have exactly their conventional effect on text and cursor",
 "In Emacs bindings every editing or movement key (characters, arrows, Home/End, Backspace/Delete, Ctrl-A/B/D/E/F/H/K/U/W, Alt-B/F/Backspace) maps the pair (text, cursor) to exactly the pair its readline convention prescribes, for any text and cursor, where words are the ranges the context's word divider returns. "
 "Any other key without a documented binding changes neither text nor cursor. "
 "Alt-. inserts the last argument of the newest (or current) history entry and, pressed again, replaces just that insertion by the previous entry's last argument.",
 ["inputs", "histories"],
 "all texts (multi-byte, multi-line, escaped spaces), cursor positions, and sequences of Emacs keys, with and without history",
 "Seven Emacs unit tests cover five keys on ASCII words; none covers C-k, C-u, C-w, M-., Unicode, or words with escaped spaces.",
 ["src/keymap/emacs.rs", "src/editor.rs", "src/context.rs"],
 [("key dispatch", "src/keymap/emacs.rs handle_key_core"), ("word moves", "src/keymap/emacs.rs emacs_move_word"), ("last argument", "src/keymap/emacs.rs handle_last_arg_fetch")],
 ["Editor::current_buffer", "Editor::cursor"])

prop("C03", "Vi motions land on exactly the defined position",
 "In Vi normal mode each motion (h l Space Backspace arrows, 0 ^ $ Home End, w W b B e E ge gE, f F t T with ; and ,) with any count moves the cursor to exactly the position its definition gives for the current text (word classes: keyword = alphanumeric or _, other non-blank, blank; W/B/E/gE: blank-separated), a find whose target is absent leaves the cursor alone, and no motion changes the text. "
 "In normal mode the cursor never rests past the last character, and Esc from insert mode moves it one to the left.",
 ["inputs"],
 "all texts, cursor positions, motions and counts (up to overflow-sized ones)",
 "The tests pin about thirty motions on fixed ASCII sentences; boundary cases (ends of the buffer, runs of blanks or punctuation, non-ASCII letters, counts beyond the text) are not enumerated.",
 ["src/keymap/vi.rs", "src/editor.rs"],
 [("word motions", "src/keymap/vi.rs vi_move_word, vi_move_word_end"), ("character finds", "src/keymap/vi.rs find_char, find_char_rev, handle_key_move_to_char"), ("counts", "src/keymap/vi.rs move_count*")],
 ["Editor::cursor", "Editor::current_buffer"])

prop("C04", "Vi change commands edit exactly the span they name",
 "In Vi normal mode d{motion} and c{motion} remove exactly the characters between the cursor and the motion's target (including the target for f, t, e, E, ge and gE, excluding it otherwise), with the counts before the operator and before the motion multiplied; a motion that finds no target, or an invalid second key, changes no text and leaves normal mode. "
 "dd/cc empty the line, D and C delete to the end, x and s delete count characters at the cursor, r replaces count characters or nothing if fewer remain, ~ toggles the case of count characters, and i a I A insert the typed text (count times) at their position. "
 "c, C, s, i, a, I, A end in insert mode and every other command in normal mode, as the mode indicator in the prompt shows.",
 ["inputs", "histories"],
 "all texts, cursors, counts (operator x motion) and sequences of change commands",
 "Around forty tests each run one command on one ASCII sentence; operator x motion x count x position is a product no test table covers (d/e, d/ge, t not found, empty line).",
 ["src/keymap/vi.rs", "src/editor.rs"],
 [("operator-pending mode", "src/keymap/vi.rs handle_key_delete_or_change, pop_mode_after_movement"), ("span deletion", "src/editor.rs delete_until, delete_until_inclusive"), ("mode stack", "src/keymap/vi.rs ModeStack, set_mode, pop_mode, normal_mode_abort")],
 ["Editor::current_buffer", "Editor::cursor", "terminal output (mode prefix)"])

prop("C05", "Vi dot repeats the last change",
 "After any change command completed in Vi normal mode (x, r, ~, D, dd, d{motion}, s, C, cc, c{motion}, i, a, I, A with their typed text), pressing . has exactly the effect of issuing that same command again, with the same typed text and count, at the current cursor, and it ends in normal mode. "
 "A count typed before . replaces the recorded count, and movements, undo or aborted commands in between do not alter what . repeats.",
 ["inputs", "histories"],
 "all change commands with counts and inserted text, followed by arbitrary motions/undo and any number of dots",
 "Nine dot tests check a handful of command/text pairs; the recorded state spans several fields and is updated separately by each command.",
 ["src/keymap/vi.rs"],
 [("recorded command", "src/keymap/vi.rs last_command, last_insert, last_count"), ("replay", "src/keymap/vi.rs repeat")],
 ["Editor::current_buffer", "Editor::cursor"])

prop("C06", "Undo and redo restore exactly the recorded texts",
 "Undoing any number of edits and redoing them passes back through exactly the texts that existed before and after each edit (each group of edits counting as one step), a new edit discards what could be redone, and revert returns to the text before the first recorded edit. "
 "In Vi each u (with count n: n steps) takes back exactly one whole command (one insert session up to a cursor movement, one operator, one repeated command); in Emacs Ctrl-X takes back one edit and Alt-R all of them. "
 "Undo while a history entry is being edited never goes back beyond that entry's stored text.",
 ["histories", "inputs"],
 "all sequences of insert/remove/truncate/group/undo/redo/revert operations on a buffer, and all Vi/Emacs command sequences followed by undo and redo",
 "Tests undo one or two groups; the group bookkeeping has to balance for every interleaving of grouped, empty, nested and aborted edits and history moves.",
 ["src/buffer.rs", "src/editor.rs", "src/keymap/vi.rs", "src/keymap/emacs.rs"],
 [("action log", "src/buffer.rs Buffer::undo, redo, push_action, start_undo_group, end_undo_group"), ("copy on first edit of a history entry", "src/editor.rs cur_buf_mut")],
 ["Buffer::undo/redo/revert", "Editor::undo/redo/revert", "KeyMap::handle_key"])

prop("C07", "History navigation visits the matching entries in order and keeps the draft",
 "With nothing typed, Up and Down step through the history entries one by one from newest to oldest and back; with text typed, Up visits first the longer entries starting with that text, newest first, then the other entries containing it (entries equal to it are skipped), newest first, and Down retraces the same steps; stepping past the newest visited entry brings back the typed text unchanged, and stepping past the oldest stays. "
 "Alt-< shows the oldest entry and Alt-> returns to the typed text, from anywhere, after which Up and Down continue from what is then shown or typed. "
 "Arriving at an entry shows it as stored with the cursor at its end, and Enter returns the text then shown.",
 ["inputs", "histories"],
 "all histories, typed texts and interleavings of Up/Down (and Ctrl-P/N, k/j), Alt-</Alt->, edits, and Enter",
 "Two tests press Up once or twice on a four-entry history; stale position state only shows after particular sequences of moves and edits.",
 ["src/editor.rs", "src/history.rs"],
 [("navigation state", "src/editor.rs move_up, move_down, move_to_start_of_history, move_to_end_of_history"), ("matching entries", "src/history.rs get_history_subset")],
 ["Editor::current_buffer", "Editor::current_history_location", "Editor::cursor"],
 [("cur_history_loc", "entry shown, or none for the draft", "src/editor.rs Editor"), ("history_subset_index/loc", "entries matching the draft and the position among them", "src/editor.rs Editor")])

prop("C08", "Incremental search offers exactly the entries containing the pattern",
 "While Ctrl-R or Ctrl-S search is active the candidates are exactly the history entries containing the typed pattern, in history order (none for an empty pattern); on the draft line Ctrl-R starts at the newest and Ctrl-S at the oldest (on a visited entry either there or at that entry), each further press moves one candidate older or newer and wraps around. "
 "Editing the pattern refreshes the candidates while staying on the shown entry if it still matches, and otherwise goes on to the next match in the direction of the search. "
 "Accepting (Right at the end of the pattern, Ctrl-F, Enter) replaces the line by exactly the shown candidate and ends the search; without a candidate Enter returns the typed pattern.",
 ["inputs", "histories"],
 "all histories, patterns (multi-byte included) and interleavings of Ctrl-R, Ctrl-S, pattern edits and accept keys in both bindings",
 "One test walks a fixed four-entry history with ASCII patterns.",
 ["src/editor.rs", "src/history.rs", "src/buffer.rs"],
 [("candidate list and position", "src/editor.rs search, refresh_search, search_history_loc"), ("containment", "src/buffer.rs contains, src/history.rs search_index"), ("accept", "src/editor.rs accept_autosuggestion")],
 ["terminal output (search prompt and match)", "text returned by read_line"])

prop("C09", "Autosuggestion is the newest strict extension and accepting it is exact",
 "While the draft line is being edited outside search, a suggestion is shown exactly when some history entry is a strict extension of the non-empty draft, and it is the newest such entry; the draft and the returned line are unaffected by a suggestion that is not accepted. "
 "Accepting it (Right at the end of the line, or Ctrl-F) turns the line into exactly that entry with the cursor at its end; Right elsewhere only moves the cursor. "
 "No suggestion is offered for an edited history entry.",
 ["inputs", "histories"],
 "all histories, drafts and cursor positions, in both bindings",
 "No test covers suggestion choice beyond one starts_with check and one search test.",
 ["src/editor.rs", "src/history.rs", "src/buffer.rs", "src/keymap/mod.rs"],
 [("choice", "src/editor.rs current_autosuggestion, src/history.rs get_newest_match"), ("accept keys", "src/keymap/mod.rs handle_key"), ("accept", "src/editor.rs accept_autosuggestion, src/buffer.rs insert_from_buffer")],
 ["Editor::is_currently_showing_autosuggestion", "Editor::accept_autosuggestion", "Editor::current_buffer", "terminal output"])

prop("C10", "The screen always shows prompt, text and cursor where they belong",
 "After every redraw, interpreting all bytes written so far as a VT100-style terminal whose width is the one the terminal object reports shows: everything above the prompt unchanged, then the prompt (mode prefix, colour codes and other escape sequences not counted, embedded newlines honoured; a prompt set during the session shows as its last line), then the current text followed by the suggested rest, wrapped at the width with continuation lines of multi-line text indented by the prompt's width, nothing stale after it, and the terminal cursor on the cell of the text cursor. "
 "On Enter, Ctrl-C or Ctrl-D the suggestion is removed and the cursor is left at column 0 of the row below the text; Ctrl-L moves the same picture to the top of a cleared screen. "
 "A highlighter that only adds colour codes never changes any character or position on the screen.",
 ["inputs", "histories", "configurations"],
 "all key histories, prompts, texts (wide and multi-byte characters), histories providing suggestions, and widths, for pictures that fit on the screen and multi-line text with a prompt narrower than the screen",
 "The tests discard all output; no test looks at the screen.",
 ["src/editor.rs", "src/util.rs", "src/context.rs"],
 [("redraw", "src/editor.rs display, display_impl, Editor::new_with_init_buffer"), ("prompt width", "src/util.rs last_prompt_line_width, remove_codes, handle_prompt"), ("screen clear", "src/editor.rs clear")],
 ["bytes written to the Tty"],
 [("term_cursor_line", "row of the cursor relative to the first row drawn", "src/editor.rs Editor")])

prop("C11", "Tab completion replaces only the word at the cursor by offered candidates",
 "Tab asks the completer with the word ending at the cursor (empty when there is none); no candidate leaves the line alone, a single distinct candidate replaces that word, several insert their longest common prefix when it extends the word and otherwise list the distinct candidates in sorted order without changing the line. "
 "Further Tabs replace the word by the candidates in sorted order, cyclically; Enter while the list is shown only closes it, and any other key closes it and acts as usual. "
 "Text before the word and after the cursor is never altered by completion.",
 ["inputs", "histories"],
 "all lines, cursor positions at the end of a word or in blank space, completer results (duplicates, shared prefixes, multi-byte), and sequences of Tab and other keys",
 "No test drives the completion path at all (the test completer is empty).",
 ["src/editor.rs", "src/complete.rs", "src/util.rs", "src/keymap/mod.rs"],
 [("completion", "src/editor.rs complete, delete_word_before_cursor, get_word_before_cursor"), ("common prefix", "src/util.rs find_longest_common_prefix"), ("list", "src/editor.rs print_completion_list"), ("prefix filter", "src/complete.rs BasicCompleter")],
 ["Completer::completions argument", "Editor::current_buffer", "terminal output"])

prop("C12", "Filename completion returns exactly the matching directory entries",
 "For any directory tree and any partial path (relative to the working directory or absolute, with escaped spaces or in quotes, with . and .. components), the filename completer returns exactly one completion per entry of the named directory whose name starts with the last path component (compared case-insensitively on request), each being the typed directory part followed by the entry's name, with / appended for directories and spaces escaped. "
 "A path naming no readable directory yields no completions, and no input makes it panic.",
 ["inputs", "configurations"],
 "all directory trees (names with spaces, dots, multi-byte characters, symlinks) x partial paths x working directory settings x case sensitivity",
 "FilenameCompleter has no tests.",
 ["src/complete.rs"],
 [("path split and matching", "src/complete.rs FilenameCompleter::completions")],
 ["Completer::completions result"])

prop("C13", "In-memory history is the bounded list of pushed lines",
 "A new history is empty, has no file, drops repeated lines, and neither appends to nor shares a file. Pushing lines keeps exactly the pushed lines in order, except that a line equal to the newest entry is dropped unless duplicate entries are allowed, and only the most recent lines up to the configured in-memory maximum are kept. "
 "Removing duplicates of a line removes exactly the entries equal to it; the match queries (prefix match, ordered subset, containing entries) return exactly the entries their documentation defines, and indexing, iteration, length and emptiness agree with that list.",
 ["inputs", "histories"],
 "all sequences of push / set sizes / clear / remove_duplicates / queries with arbitrary lines and limits (including 0)",
 "Two tests push a few letters; limits, duplicates and queries are unexplored in combination.",
 ["src/history.rs", "src/buffer.rs"],
 [("push", "src/history.rs History::push"), ("queries", "src/history.rs get_newest_match, get_history_subset, search_index, remove_duplicates")],
 ["History public API"])

prop("C14", "Saved history loads back exactly, within the file limit",
 "With incremental append off, committing a history of single-line entries and loading the file into another history yields the same entries in the same order, keeping only the newest up to the file limit; lines starting with # are comments and are not loaded, and a line that is not UTF-8 keeps no other from being loaded. "
 "Loading replaces or appends as asked, drops all but the last occurrence of equal lines exactly when loading duplicates is off, and reloading a file whose size did not change since the last load changes nothing. "
 "A commit reports success only if the whole history was written, a missing file is reported as an error, and a newly named file is created.",
 ["inputs", "histories", "fault_sequences"],
 "all entry lists, limits, flags and sequences of push / commit / load / external rewrites / failing writes",
 "Two file tests write letters to one file and reload once; flags, limits, comments and failing writes are untested.",
 ["src/history.rs"],
 [("load", "src/history.rs load_history_file_test, load_history, set_file_name_and_load_history"), ("save", "src/history.rs overwrite_history, commit_to_file_path"), ("limit", "src/history.rs truncate")],
 ["History public API", "file contents"])

prop("C15", "Incremental and shared history files lose no entry",
 "With incremental append on and the file in place, every accepted push of a single line is in the history file when push returns, after all earlier ones, whoever wrote them, and pushes from several instances on one file never destroy each other's lines, not even when they happen at the same time and while one of them compacts the file. "
 "When loading duplicates is off the file is compacted from time to time: compaction keeps the last occurrence of every distinct line (other than # comments) among the newest ones up to the file limit, in order, never drops the line being pushed, and keeps the file from growing beyond the limit plus the lines pushed between compactions. "
 "With sharing on, an instance sees every other instance's lines, in file order, when it next navigates or searches its history and the size of the file shows a change, and doing so never panics even if the file shrank or vanished meanwhile.",
 ["histories", "inputs", "schedules"],
 "all interleavings of pushes, loads and navigations by several instances over one file, any limits and flags, any external truncation or removal of the file",
 "inc_append, share and compaction are not exercised by any test.",
 ["src/history.rs", "src/editor.rs"],
 [("append and compaction", "src/history.rs push, deduplicate_history_file"), ("reload on navigation", "src/editor.rs freshen_history, src/history.rs load_history")],
 ["history file contents", "History::buffers", "Editor navigation"],
 [("file_size", "size of the file when last read or appended", "src/history.rs History"), ("compaction_writes", "appends since the last compaction", "src/history.rs History")])

prop("C16", "A reading session ends as its keys say and reports every event",
 "Reading a line returns Ok with exactly the current text on Enter or at end of input, inserts a newline instead when a backslash precedes the cursor at Enter, and fails with Interrupted on Ctrl-C and UnexpectedEof on Ctrl-D with an empty line (Ctrl-D otherwise never ends the session); an initial text is editable as if typed, and consecutive reads on one context are independent of each other. A new context has an empty history and Emacs bindings, and key bindings are initialised once, before the first key. "
 "The completer sees, for every key in order, one before-key event with the key as received and, if the key did not end the session with an error, one after-key event, with a before-complete event between them exactly for Tab.",
 ["inputs", "histories"],
 "all key streams including early end of input and all interleavings with search, completion and multi-line entry, in both bindings, over several consecutive reads",
 "Three tests cover Ctrl-C/Ctrl-D on an empty keymap; the read loop itself is never run (the test terminal has no keys).",
 ["src/context.rs", "src/keymap/mod.rs", "src/editor.rs", "src/event.rs"],
 [("read loop", "src/context.rs read_line_with_init_buffer, handle_keys"), ("common keys and events", "src/keymap/mod.rs handle_key"), ("enter", "src/editor.rs handle_newline")],
 ["read_line result", "Completer::on_event"])

prop("C17", "Word splitting and cursor classification are exact",
 "The default word divider returns non-empty, ordered, non-overlapping ranges within the text that cover every character other than spaces and backslashes, contain a space only where it is escaped by a preceding backslash, and never join characters separated by an unescaped space or split adjacent ones. "
 "Classifying a cursor against any ordered list of words reports in-word, left edge, right edge or space together with exactly the indices of the touching or neighbouring words.",
 ["inputs"],
 "all texts over spaces, backslashes and other characters, all cursor positions, all ordered word lists",
 "One table of nine cases with plain words.",
 ["src/context.rs", "src/editor.rs"],
 [("divider", "src/context.rs get_buffer_words"), ("classification", "src/editor.rs CursorPosition::get")],
 ["get_buffer_words", "CursorPosition::get", "Editor::get_words_and_cursor_position"])

prop("C18", "A buffer behaves as the character sequence it denotes",
 "Every buffer operation agrees with the same operation on a plain sequence of characters: insert, remove, truncate, copy and append-from keep all other characters in place and report the number removed; ranges, lines, counts, display widths, neighbours of a position, last argument, prefix and containment tests, printing and conversion to and from strings return what the sequence implies, for any Unicode text. Two buffers are equal, and then have equal hashes, exactly when their texts are equal, whatever edits led to them.",
 ["inputs", "histories"],
 "all in-range operation sequences over arbitrary Unicode text",
 "About twenty tests all use the string abcdefg.",
 ["src/buffer.rs"],
 [("storage", "src/buffer.rs insert_raw, remove_raw"), ("queries", "src/buffer.rs starts_with, contains, last_arg, range_width, lines, print, print_rest")],
 ["Buffer public API"])

prop("C19", "Sessions on a real terminal behave like scripted ones and restore it",
 "On a real terminal device, a session fed the bytes of any key sequence returns the same lines or errors as the same keys delivered through a custom terminal object, prints a picture of the terminal's actual width, and runs with the terminal in raw mode. "
 "When the context is dropped, after success or error, the terminal's settings are exactly those it had before.",
 ["inputs", "configurations"],
 "all byte sequences encoding keys, terminal sizes and initial terminal settings",
 "No test touches a terminal device; all use a stand-in.",
 ["src/context.rs", "src/util.rs"],
 [("real terminal", "src/context.rs DefaultTty"), ("width", "src/util.rs terminal_width")],
 ["pseudo-terminal contents and settings", "read_line result"])

prop("C20", "Terminal failures surface as errors and leave the history intact",
 "If any write, flush, key read or width query of the terminal fails at any point of a session, the read returns that error, without panicking, and no further keys are consumed (only the very first width query of a read falls back to 80 columns instead); after it the history is unchanged and a new read on the same context with a working terminal behaves as if the failed one had not happened.",
 ["fault_sequences", "inputs", "histories"],
 "all sessions x all positions of a failing terminal operation x error kinds",
 "No test injects a failing terminal.",
 ["src/editor.rs", "src/keymap/mod.rs", "src/keymap/vi.rs", "src/context.rs"],
 [("error propagation", "src/editor.rs display_impl, src/keymap/vi.rs pop_mode, src/context.rs handle_keys")],
 ["read_line result", "History contents"])

prop("C21", "Editing never alters the stored history",
 "Whatever keys are pressed while reading a line (visiting, editing, completing, searching, suggesting from and undoing inside history entries, ending by Enter, error or end of input), the history entries after the read are exactly those before it, in the same order. "
 "An edited history entry is forgotten when the user moves to another entry, so returning to it shows the stored text.",
 ["inputs", "histories"],
 "all key sequences in both bindings over all histories (no sharing)",
 "Tests never compare the history before and after a session.",
 ["src/editor.rs", "src/context.rs"],
 [("copy on write of history entries", "src/editor.rs cur_buf_mut, hist_buf")],
 ["Context::history before and after", "Editor::current_buffer"])

prop("C22", "Colours tell typed text, suggestion and completion apart",
 "Outside of a search the highlighter is given exactly the lines of the text being edited (never the prompt, the suggested rest or the list of completions), and what it returns is shown in place of them. "
 "The rest of a suggestion, on every row it occupies, is shown in one colour that plain typed text does not have; the pattern of a search is coloured; in the list of completions exactly the candidate that is on the line is highlighted, and none before one was chosen. "
 "Prompt and mode indicator keep the colours they bring along, and after every redraw and after the line is entered the terminal is back to its default colours (if prompt and highlighter reset theirs).",
 ["inputs", "configurations", "histories"],
 "all texts, histories, completions, key sequences, coloured prompts and mode indicators, highlighters and widths",
 "No test uses a highlighter or looks at a colour.",
 ["src/editor.rs"],
 [("drawing", "src/editor.rs display_impl"), ("list of completions", "src/editor.rs print_completion_list"), ("search prompt", "src/editor.rs search_prompt")],
 ["arguments of the highlighter", "bytes written to the terminal"])

prop("C23", "The editor's public operations do what they are documented to do",
 "Called directly on an Editor or from an event handler between keys, the insertions, deletions (delete_until and delete_until_inclusive in both directions and with positions beyond the end), movements with any count, undo, redo and revert, history moves, acceptance of a suggestion, take_exec_buffer, handle_newline, and edits through current_buffer_mut followed by display change text and cursor exactly as documented, clamp what is out of range and never panic; "
 "settings (prompt, mode, clear, display, skip_completions_hint) change neither; the cursor queries agree with the text; and the editor turns into exactly its current text.",
 ["inputs", "histories"],
 "all sequences of calls with any arguments over all texts and histories; all edits by event handlers around keys",
 "The tests call some of these methods once, with in-range arguments.",
 ["src/editor.rs", "src/event.rs", "src/keymap/mod.rs"],
 [("editing", "src/editor.rs insert_*, delete_*, move_cursor_*"), ("undo", "src/editor.rs undo, redo, revert"), ("events", "src/keymap/mod.rs handle_key")],
 ["Editor public API"])

prop("C24", "How a line is displayed never changes what is edited",
 "The same keys on the same history, completions and initial text give the same text, cursor, visited history entry, completion requests, results and errors after every key, whatever the prompt, the mode indicator, the terminal's width and its changes, the highlighter, prompts set during the session, and how the terminal splits the writes.",
 ["inputs", "configurations", "histories"],
 "all key sequences in both bindings x pairs of display settings",
 "Tests run one prompt at one width.",
 ["src/editor.rs", "src/keymap/mod.rs", "src/keymap/vi.rs", "src/keymap/emacs.rs"],
 [("display", "src/editor.rs display, display_impl"), ("prompt", "src/editor.rs set_prompt, search_prompt")],
 ["Editor::current_buffer", "Editor::cursor", "read_line result"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
