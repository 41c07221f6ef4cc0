"""Writes known-findings.txt (run by hand; no check runs it)."""
finding = "KNOWN-FINDING: property=C17 C17-compaction: with load_duplicates off, an entry appended by another session while the file is being compacted (after it was read, before it is replaced) is lost"
fixed = """
C12 8e17131 with a terminal other than the process' stdout, redraws failed or wrapped at stdout's width
C12 5b8f912 the line drifted down the screen and the cursor was misplaced (empty prompt, multi-line text, wide characters, search, prompt as wide as the terminal); also C01: unreachable!() was reached
C01 ddb9daf displaying a suggestion with non-ASCII text panicked; also C12
C12 10a8255 Ctrl-L never cleared the screen
C12 00e9ad6 the rows of the candidate list were miscounted, and redraws erased earlier output
C01 49caec7 Right on an empty recalled line panicked in vi normal mode
C13 d003823 Ctrl-R, Ctrl-S, Ctrl-F and an accepting Right left the candidate list open; also C12
C13 fc67d7d Enter with a candidate list open during a history search replaced the line by the match
C09 bb8c70e Enter after a backslash, and reloading a shared history, lost the place in the history; also C01, C17: index out of range
C09 85b90a2 after Alt-> Up went on from the old matches, and in a search Alt-< showed the oldest entry; also C10
C02 da3bc1d Ctrl-F on a recalled entry jumped to the end of the line; also C11
C07 1014de7 undo replaced a recalled entry by entries recalled before
C08 df13a63 take_exec_buffer removed the recalled entry from the history
C06 dda1846 undo of a group that ended in an empty group took back the change before it, too
C22 744e278 equal buffers hashed differently
C21 353515f a leading backslash was left out of its word
C07 8307989 deletions that removed nothing were undo steps; also C01, C04: dtx on an empty line panicked
C13 ab37c11 completion inside a word doubled the word's end, and cycling replaced the wrong text; also C07
C24 329d815 a repeated Alt-. removed text it had not inserted
C19 9bf8c54 a terminal error after ~ panicked
C04 46850f6 de, dE, ce and cE left the last character of the word
C07 0ab26d3 after an aborted change everything was undone at once
C04 f7836e8 2d0 took the 0 for a digit, d<Home> and d<End> did not delete; also C03
C04 51471f3 the count of ~ was applied to the next command, too
C04 6d91a8d df, dt, cf, ct without a match deleted text; also C05
C05 a206189 repeating C did not leave insert mode
C05 9afdaf6 dd and cc were not repeated, and an aborted change was forgotten as the last command
C05 009aa61 after a repetition that was aborted, text was executed as commands; also C04
C07 7fb06fe u took back everything after a search that left a recalled entry
C14 06115c3 filename completion panicked on some prefixes and offered wrong names for others
C17 d03be2b opening a history file truncated one that another session had just created
C18 f36d1eb a line cut within a character hid every later entry; also C16
C16 69006c5 compaction lost entries, long entries were written in two parts, and an entry after a cut one became part of it; also C17, C18
C18 60ab3c5 rewriting the file truncated it first, and a crash lost every entry; also C17
C09 bf46920 Ctrl-L on a recalled entry lost the place in the history
C05 07713da a count was applied to text typed after the cursor had moved in insert mode
C12 c265e67 a prompt wider than the terminal stayed on the screen twice
C12 bfbf604 the candidate list stayed on the screen after keys that close it; also C13
C15 9a5ecc1 removing "ab" from the history also removed the entry of two lines "a" and "b"
C01 1074b83 a terminal that reports a width of 0 made the editor panic
C12 f4340f3 escape sequences such as those of "tput sgr0", or ended by ST, were counted as text in the prompt
C23 634e8da a prompt with a mode indicator put in place of one without showed the wrong mode
C25 a25394f deleting up to and including the last possible position panicked
C26 929da32 the rest of a suggestion that started on a new line was shown like typed text
C17 27101b0 a shared history missed entries when the file, compacted meanwhile, had grown to its former size
C03 a57c4d3 a word motion with a huge count went on counting for minutes at the start of the line; also C01, C04
""".strip().splitlines()
with open("/verif/known-findings.txt", "w") as f:
    f.write(finding + "\n\n")
    for l in fixed:
        p, h, t = l.split(" ", 2)
        f.write("fixed: property=%s %s %s\n" % (p, h, t))
