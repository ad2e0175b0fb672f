import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                        observe_at=list(obs),hook_needed=None))
    P.append(d)
p("C01","Editing commands transform the line sequence exactly",
  "At every moment the buffer is one sequence of lines, and line number k always denotes its k-th line, whatever lines were accessed, added, removed or moved before. Append/insert/change/read/put insert the new lines in order directly after the addressed line, delete removes exactly the addressed range, move relocates exactly the range after its destination, copy duplicates it there, and join replaces the range by one line that is its concatenation. All other lines keep their content and relative order, and the line count equals the number of lines.",
  ["inputs","histories"],"every buffer, every valid address combination, every prior history of accesses (the line-lookup cache can be in any coherent state)",
  "The suite runs ~150 fixed scripts on small buffers; link surgery and the bidirectional line-lookup cache depend on the relative position of range, destination and the previously accessed line, of which the scripts visit a handful.",
  ["src/buf.c","src/exec.c","src/io.c","src/sub.c","src/ed.h"],
  [("doubly linked line list and macros APPEND_NODE/LINK_NODES/UNLINK_NODE","src/ed.h"),("get_line_node (cached lookup), append_line_node, put_buffer_line","src/buf.c"),("append_lines, copy_lines, delete_lines, move_lines, join_lines","src/exec.c")],
  [("line list","the lines in order, head node = line 0","ed->core->line_head"),("lines","number of lines","ed->state->lines"),("lookup cache","last node and its number","statics of get_line_node")],
  ["text printed by p/n/l, output of w"])
p("C02","Undo restores exactly the buffer before the last change",
  "After any command (including a global command as a whole) that changed the buffer, one undo restores precisely the previous sequence of lines, their contents, the previous current line (as it stands when the command begins to act, after its addresses were read) and the previous modified status. A second undo restores the changed state again, and so on alternately. With nothing to undo (no command since the buffer was loaded), undo reports an error and changes nothing.",
  ["inputs","histories"],"all sequences of primitive edits making up one undoable command, in any number and order, and all numbers of consecutive undos",
  "The tests undo a few fixed edit mixes; correctness needs every recorded entry to be the exact inverse of its link surgery for every relative position, and to compose in reverse for every sequence of entries.",
  ["src/undo.c","src/exec.c","src/io.c","src/sub.c","src/ed.h"],
  [("append_undo_node / undo_last_command / reset_undo_queue","src/undo.c"),("APPEND_UNDO_NODE uses in delete_lines, move_lines, copy_lines, append_lines, join_lines, substitute_matching","src/exec.c, src/sub.c, src/io.c")],
  [("undo queue","entries of the last command","ed->core->undo_head"),("state[1]","scalar state before the last command","ed->state[1]")],
  ["buffer listing after u"])
p("C03","Current line stays valid; invalid addresses change nothing",
  "After every command, successful or failed, the current line is a line of the buffer (0 only where no line is selected, and then only if allowed) and never exceeds the last line. A command that takes a range, given one that is backwards, out of the buffer, or zero where it needs a line (or any command given an address where it takes none) reports an error and leaves lines, contents and current line unchanged (except for what `;` or a search in the addresses themselves set).",
  ["inputs","histories"],"every command, every address pair, every reachable buffer size and current line",
  "Tests check a few bad addresses on a few commands; there are about 40 commands each with their own address check, defaults and post-state of the current line.",
  ["src/exec.c","src/io.c","src/sub.c","src/parse.c"],
  [("is_valid_range and per-command zero checks","src/exec.c"),("assignments to the current line","src/exec.c, src/buf.c, src/sub.c, src/io.c")],
  [("dot, lines","current and last line","ed->state")],["result of .= and $= after each command"])
p("C04","Line address arithmetic is exact or rejected",
  "An address expression denotes exactly the integer its parts add up to: `.`, `$`, number, mark or search base plus all signed offsets and repeated +/- signs, with `,` `;` `%` and omitted addresses taking their documented defaults and the last two addresses forming the range. A value that cannot be represented or falls outside 0..last is reported as an error; it never wraps around to a valid line.",
  ["inputs"],"all address strings, including digit strings of any magnitude and any number of offsets",
  "Tests use small literal addresses; overflow in the accumulated value and combinations of separators and offsets are not sampled.",
  ["src/parse.c","src/ed.h"],[("extract_addresses, next_address, address_offset and STRTOL_THROW","src/parse.c, src/ed.h")],
  [("region","start, end and number of addresses given","ed->exec->region")],["line printed by <addr>p, result of <addr>="])
p("C05","Stored line text is returned unchanged",
  "The text of every line, once stored, is returned byte for byte (any length, any bytes including NUL) at every later access, however many lines were stored or fetched in between and in whatever order. A failed write or read of the scratch file is reported as an error and never makes a later access return or a later store record wrong text.",
  ["inputs","histories","fault_sequences"],"all interleavings of stores and fetches, all line lengths, a failure at any file operation",
  "The scratch-file position cache is right for the orders tests use; nothing in the suite fails an I/O operation or covers arbitrary interleavings.",
  ["src/buf.c"],[("put_buffer_line / get_buffer_line position tracking","src/buf.c")],
  [("offset, seek_on_write","believed file position, need-to-seek flag","ed->core")],["printed text, output of w"])
p("C06","A write outputs exactly the addressed lines or reports failure",
  "A write (to file, append, or command) emits exactly the addressed lines in order, each followed by one newline (the last line of the buffer without it only when it is known to lack it in a binary file), and reports the number of bytes and lines actually emitted. If any byte could not be delivered, including at flush or close, the command reports an error and the buffer is not considered saved.",
  ["inputs","fault_sequences"],"all buffers and ranges, all option combinations, a failure at any output operation",
  "The suite writes small files to a healthy disk; delayed failures (flush, close, full device) never occur there.",
  ["src/io.c","src/exec.c"],[("write_file, write_pipe, write_stream, put_stream_line","src/io.c"),("w_cmd, wq handling","src/exec.c")],[],["file content, byte count printed, error status"])
p("C07","Reading inserts exactly the bytes of the input as lines",
  "Reading a file or command output inserts after the addressed line exactly the lines of the input in order, splitting at newlines only and preserving all other bytes including NUL, and reports the number of bytes read. A final line without newline is inserted too and the missing newline is remembered, so that reading a file and writing it back reproduces it byte for byte; only in text (no NUL byte) is the missing newline added instead.",
  ["inputs"],"all inputs: any bytes, any line lengths, with or without final newline",
  "Tests read a few text files; NUL bytes, lines longer than the buffer, and missing-newline combinations are open ended.",
  ["src/io.c","src/buf.c"],[("read_file, read_pipe, read_stream, get_stream_line","src/io.c"),("put_buffer_line","src/buf.c")],
  [("newline_missing, is_binary","remembered shape of the last line","ed->state")],["buffer listing; w output compared with r input"])
p("C08","Unsaved changes are never discarded silently",
  "The buffer counts as modified after every command that changes its contents (reading into an empty buffer counts as loading it) and stays so until a write of the whole buffer succeeds (or undo returns it to the last saved contents). While it is modified, quitting or editing another file without force is refused with a warning; only a repetition after that warning, with no change in between, proceeds.",
  ["histories"],"all command histories, including failed writes, partial writes, undo after write and global commands",
  "Whether the flag is right is a property of whole histories (edit, save, undo, quit in any order); the tests run a few.",
  ["src/exec.c","src/io.c","src/undo.c","src/sub.c","src/main.c"],[("is_modified updates; q_cmd, e_cmd, EOF handling","src/exec.c, src/main.c")],
  [("is_modified","buffer differs from file","ed->state")],["warning '?' / exit status of q"])
p("C09","Marks stay attached to their line",
  "A mark set on a line denotes that same line after any insertions, deletions elsewhere or moves, and denotes its current line number. Once its line has been deleted for good the mark is invalid, and using it is an error, never some other line.",
  ["histories"],"all histories of edits and undo between setting and using a mark, all mark letters",
  "Needs every place that frees a line to drop its marks, in every history; tests cover one or two.",
  ["src/exec.c","src/parse.c","src/undo.c","src/buf.c"],[("mark_line_node, get_marked_node_address, unmark_line_node","src/exec.c"),("reset_undo_queue frees deleted lines","src/undo.c")],
  [("mark[]","line marked by each letter","src/exec.c")],["result of 'x= "])
p("C10","Global commands visit each selected line exactly once",
  "A global command first selects precisely the lines of its range that match (or, for v/V, do not match), then executes its command list once for each selected line in buffer order, with the current line set to that line. A selected line that an earlier execution deleted, or moved or replaced away, is skipped; no line is visited twice and none that was not selected is visited.",
  ["inputs","histories"],"all patterns of matching lines, all command lists that add, delete, move or copy lines while the selection is being processed",
  "Tests run g with simple commands; the selection queue must survive arbitrary edits between steps.",
  ["src/glbl.c","src/exec.c","src/main.c","src/parse.c"],[("mark_global_nodes, append_global_node, next_global_node, delete_global_node, reset_global_queue","src/glbl.c"),("exec_global","src/main.c, src/exec.c")],
  [("global queue","lines still to visit","ed->core->global_head")],["output of g/re/list"])
p("C11","Critical sections are balanced; signals never see half-done edits",
  "While the linked structures, growing buffers or their sizes are being updated, hangup, interrupt and window-size signals are deferred, and each deferred signal is handled when the section ends. Every path through the editor, including every error path, leaves exactly as many critical sections as it entered, so that signals are neither lost for the rest of the session nor handled inside an update.",
  ["schedules","fault_sequences","inputs"],"a signal arriving at any point; every path through every function including allocation and I/O failures",
  "Tests deliver no signals and no allocation failures; an unbalanced path shows only as a later unresponsive or corrupting signal.",
  ["src/signal.c","src/buf.c","src/exec.c","src/undo.c","src/glbl.c","src/io.c","src/sub.c","src/ed.h"],[("spl1/spl0 nesting counter, signal_handler","src/signal.c")],
  [("_mutex, _sigflags","nesting depth, pending signals","src/signal.c")],["reaction to SIGINT/SIGHUP"])
p("C12","Restricted mode runs no shell command and leaves no directory",
  "In restricted mode no command, file argument or script makes the editor start a shell command or open for reading or writing a file whose name contains a directory separator or begins with `!` (a shell command); every such attempt is an error. The restriction cannot be switched off during a session. (What the person starting the editor gives outside the editing session is not restricted: the script of option -f, the scratch directory TMPDIR and the HOME directory of the hang-up file.)",
  ["inputs","configurations"],"all commands, file names (including remembered, globbed and defaulted ones) and command line options",
  "A safety property over every path that reaches a process launch or file open; tests try one or two.",
  ["src/main.c","src/exec.c","src/io.c","src/parse.c"],[("RESTRICTED tests before popen/system and in file name extraction","src/exec.c, src/io.c, src/parse.c")],
  [("opt","option flags","ed->exec->opt")],["'?' and absence of the side effect"])
p("C13","Substitution replaces exactly the selected matches",
  "Substitution rewrites each addressed line to its text with exactly the selected matches (first, n-th, all, or n-th from the end, each non-overlapping and left to right) replaced by the expanded replacement and everything else unchanged, for every line length, replacement length and count. A line without a selected match is left untouched, the current line becomes the last line changed, and no match count, suffix or replacement makes the editor crash or loop.",
  ["inputs"],"all lines, match positions, counts (positive, negative, g) and replacement templates of any length",
  "Tests substitute short strings; buffer growth, counts larger than the number of matches and long templates are unbounded.",
  ["src/sub.c","src/re.c"],[("substitute_lines, substitute_matching, apply_subst_template","src/sub.c")],[],["line text after s"])
p("C14","UTF-8 text is decoded and displayed faithfully",
  "A byte sequence is treated as a character exactly when it is a well-formed UTF-8 encoding, its scalar value and length are computed exactly, and malformed or truncated bytes are handled as single bytes; classification never reads outside the given bytes. The unambiguous listing prints every byte of a line exactly once, as itself or as its escape.",
  ["inputs"],"all byte sequences",
  "The space of byte sequences is sampled with a few valid strings.",
  ["src/utf8.c","src/page.c","src/io.c"],[("utf8_char_size, utf8 decoding helpers, display routines","src/utf8.c, src/page.c")],[],["output of l, return values of the helpers"])
p("C15","Encrypted files round-trip",
  "Writing a buffer with an encryption key and reading the file back with the same key yields exactly the same bytes, for every length and content. Encryption state is reset between files so that each file stands alone.",
  ["inputs"],"all data lengths (all residues of the block size), all contents and keys",
  "Round trip must hold for each length residue and buffer refill position; tests cover none or few.",
  ["src/cbc.c","src/io.c"],[("init_des_cipher, put_des_char, get_des_char, flush_des_file","src/cbc.c")],[],["bytes of the file read back"])
p("C16","Registers hold exactly the text put into them",
  "Writing lines into a register and inserting the register reproduces exactly those lines in order; appending to a register adds after its previous contents; moving or copying between registers transfers exactly the contents. Register operations never alter another register, and the failure of one is reported.",
  ["inputs","histories"],"all register numbers, ranges and sequences of register operations",
  "Tests touch a few registers once; offsets into the shared buffers and queue splicing depend on history.",
  ["src/io.c","src/exec.c"],[("register queue functions (append_to_register, inter_register_copy/move, read_from_register, reset_register_buffer)","src/io.c")],[("regbuf","per-register line queues","ed->core->regbuf")],["lines inserted from a register"])
p("C17","Growing buffers are never overrun",
  "Every internal text buffer that grows with its input is enlarged before each store beyond its size, whatever the input length, and a request that cannot be satisfied is reported as an error leaving the previous buffer valid. No input makes the editor write outside such a buffer.",
  ["inputs","fault_sequences"],"all input lengths, all growth sequences, allocation failure at any growth",
  "Tests use inputs shorter than one allocation unit; off-by-one growth shows only at exact boundary lengths.",
  ["src/buf.c","src/io.c","src/sub.c","src/parse.c","src/glbl.c","src/page.c","src/ed.h"],[("REALLOC_THROW / realloc_buffer","src/ed.h, src/buf.c")],[],["absence of memory errors"])
p("C18","Only documented commands act; everything else is rejected",
  "A command letter performs its documented command and no other; a character that is not a command, a command with unexpected trailing characters, or a command not permitted in the given context (such as nested global commands) is reported as an error and has no effect on the buffer.",
  ["inputs"],"all command characters and suffixes",
  "Tests use valid letters; the dispatch table has over a hundred slots.",
  ["src/exec.c","src/parse.c"],[("exec_command dispatch, command tables, COMMAND_SUFFIX","src/exec.c, src/cmds.c")],[],["'?' and unchanged buffer"])
p("C19","The paging window shows each line once, in order",
  "Forward and backward scrolling displays consecutive portions of the buffer: every row shown comes from the right line and column, none is skipped or repeated within a page, and the current line afterwards is the last line shown. The display buffer is never indexed outside its rows for any line length, window size or position.",
  ["inputs","configurations"],"all buffers, window sizes, line lengths and starting positions",
  "Paging is tested with a fixed window and short lines; wrapping long lines over page boundaries depends on all of them.",
  ["src/page.c","src/exec.c"],[("display_lines, scroll_lines, put_frame_buffer_line","src/page.c")],[("frame buffer","circular rows of the window","src/page.c")],["screen output of z / Z / ] / ["])
p("C20","Matching agrees with the regular-expression language",
  "A search or match succeeds on a line exactly when the line contains a string of the language of the pattern under the selected syntax, and reports its leftmost longest occurrence.",
  ["inputs"],"all patterns and lines",
  "The pattern language is infinite; tests sample it.",
  ["src/re.c","lib/regexec.c"],[("get_compiled_regex, regexec from the bundled library","src/re.c")],[],["lines selected by /re/"])
p("C21","Cooperating editors never corrupt a locked file",
  "Two editors sharing a file through advisory locks never interleave their writes, and a file opened for editing elsewhere is reported read-only.",
  ["schedules"],"all interleavings of two processes",
  "Needs concurrent processes.",
  ["src/io.c"],[("file locking in open_stream / write_file","src/io.c")],[],["file content"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,s); assert len(d['title'])<=80
print(len(P))
