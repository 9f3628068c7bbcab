TEC = "contracts + loop invariants on the real C (LLVM IR of the current tree), obligations discharged by z3/cvc5; native replay"

prop("C01", "A word's stored list of message numbers reads back exactly",
     "For every sequence of message numbers recorded for a word in increasing order, decoding its stored compressed list, in memory or from a database file, yields exactly the distinct numbers recorded, in order, and then stops. "
     "Recording the latest number again adds nothing, recording a new number never disturbs earlier ones, and a copied list can be extended like the original.",
     ["inputs"], "all increasing sequences of message numbers (increments below 63*2^24), all list lengths, all buffer sizes",
     "the tests index a few hundred messages, so only one- and two-byte increments at a handful of values are ever encoded",
     ["tok.c", "reader.c", "reader.h"],
     [("entry encoder", "tok.c insert_value, insert_index_on_encoding"), ("buffer growth", "tok.c check_and_enlarge_encoding"),
      ("entry decoder", "reader.c int_list_reader_read"), ("list copy", "reader.c int_list_reader_copy")],
     [("matches", "bytes in use, bytes allocated, highest number", "mairix.h struct matches")],
     ["search results for a word", "dump of the database"],
     dict(technique=TEC, note="Encoder, growth, decoder, reader set-up and list copy proved for all values, lengths and buffers against one byte-level format; list round trip is an induction lemma over those contracts. Assumes increments < 63*2^24 and the C library contracts for realloc/memcpy."))

prop("C02", "A word, substring or fuzzy term marks exactly the messages it should",
     "A word term selects exactly the messages listed for an identical indexed word; a substring term 'sub=' or 'sub=N' (up to 31 characters) exactly those listed for a word containing a substring that differs from sub by at most N missing, extra or different letters; '^sub=' those with a word starting with sub. "
     "A path term does the same for the message's file path (for a message in an mbox, the mbox's path), and never selects a message that no longer exists.",
     ["inputs"], "all words, all patterns of 1 to 31 bytes, all error counts, all tables of a well-formed database",
     "the tests use a few hand-picked substrings and at most two errors; the bit-parallel automaton has state for every pattern position and error count",
     ["search.c", "reader.c"],
     [("pattern vector", "search.c build_match_vector"), ("automata", "search.c substring_match_0..3, substring_match_general"),
      ("tables", "search.c match_substring_in_table, match_string_in_table, match_string_in_table2, mark_hits_in_table"), ("paths", "search.c match_substring_in_paths")],
     [("a, hit", "bit j clear: pattern character j equals this byte", "search.c build_match_vector")],
     ["raw search output"],
     dict(technique=TEC, note="Every matcher proved equal, for all words, patterns and error counts, to the inductive definition of approximate occurrence; the table and path loops proved to mark exactly the listed messages on any well-formed database. '^' combined with N>0 is unspecified in the manual and left unconstrained. strcmp and malloc assumed."))

prop("C03", "Every word of every message is indexed once, under the right message",
     "After indexing, every word that occurs in a message is in the index with exactly the messages it occurs in, however many words and messages there are and in whatever order they arrive. "
     "No word is lost or duplicated when the word tables grow, and words are kept apart per part (to, cc, from, subject, body, attachment name, message-id).",
     ["inputs"], "all sets of words and messages, all table sizes, all hash collisions",
     "the tests index a small fixed set; collisions, displaced entries and several growth steps are never reached together",
     ["tok.c", "hash.c"],
     [("insertion", "tok.c add_token_in_file, add_token2_in_file"), ("growth", "tok.c enlarge_toktable, enlarge_toktable2"), ("hash", "hash.c hashfn")],
     [("toktable", "open-addressing hash table of words", "mairix.h struct toktable")],
     ["dump of the database", "search results"],
     dict(technique=TEC, note="Insertion into the word tables and their growth proved for all texts, hashes and table sizes; tokenise_message and the writing of the tables are bounded (runs of the program)."))

prop("C04", "The database file holds exactly what was indexed",
     "Whatever was indexed (messages of every folder type, their sizes, dates, flags, threads, mbox positions and checksums, and all word lists), the database file reads back as exactly that, both for searching and for the next update. "
     "Updating without any change to the mail leaves every search result as it was.",
     ["inputs", "histories"], "all indexes: any number and type of messages, any words",
     "the tests compare one dump of a small index",
     ["writer.c", "reader.c", "db.c"],
     [("layout and output", "writer.c compute_mapping, write_messages, write_toktable, write_toktable2"), ("open", "reader.c open_db"), ("read back", "db.c new_database_from_file, import_toktable")],
     [("HEADER", "offsets of every table in the file", "reader.h")],
     ["dump of the database before and after updates", "search results"],
     dict(technique=TEC, level="exploration", note="No contract yet: bounded runs of the program on generated mail against a reference written from the manual."))

prop("C06", "Purging removes exactly the vanished messages and keeps everything else",
     "After 'mairix -p' the index holds no trace of messages that have vanished, and every remaining message keeps its words, date, size, flags and its thread as before. "
     "The result is the same as indexing the remaining mail afresh, apart from the order of the messages and the thread numbers.",
     ["histories", "inputs"], "all sets of vanished messages, all word lists, any folder types",
     "the tests purge once with one pattern of deletions",
     ["db.c", "tok.c", "mbox.c"],
     [("cull", "db.c cull_dead_messages"), ("renumbering", "db.c recode_toktable, recode_toktable2, recode_encoding"), ("mboxes", "mbox.c cull_dead_mboxen")],
     [("new_idx", "old to new message number", "db.c cull_dead_messages")],
     ["dump of the database", "search results"],
     dict(technique=TEC, note="Renumbering of word lists, removal of words without messages, compaction of the message and mbox arrays proved for all sets of dead messages; new numbers are ranks (lemma). That the file written afterwards matches is bounded (runs of the program)."))

prop("C07", "-t adds exactly the messages of the same thread",
     "Two messages belong to the same thread exactly when they are linked by a chain of messages, each sharing a message-id with the next in its Message-ID, In-Reply-To or References. "
     "With -t a search returns exactly the messages whose thread contains a matching message, whatever the order in which they were indexed.",
     ["inputs", "histories"], "all reference graphs over all messages, in every order of indexing",
     "the tests contain two small threads in one order",
     ["db.c", "search.c"],
     [("thread numbers", "db.c find_threading, find_base, find_min_base"), ("expansion", "search.c do_search (threads)")],
     [("tid", "thread number of a message", "mairix.h struct msgpath")],
     ["raw search output with -t"],
     dict(technique=TEC, note="find_threading proved for all reference graphs: messages that share an id get one thread number, messages that nothing connects get different ones. Collecting the ids and the -t expansion are bounded (runs of the program)."))

prop("C08", "Terms combine as the manual says: all terms, ',' and, '/' or, '~' not",
     "A message is selected exactly when it satisfies every argument; within an argument any of the '/'-separated alternatives suffices, an alternative needs all of its ','-separated words, and '~' negates one word. "
     "A list of part letters before ':' is satisfied by any of those parts, and with none by to, cc, from, subject or body.",
     ["inputs"], "all search expressions over all indexes",
     "the tests use a dozen expressions of limited depth",
     ["search.c"],
     [("parsing and combination", "search.c do_search")],
     [("hit0..hit3", "messages hit by a word, a conjunction, a disjunction, all arguments", "search.c do_search")],
     ["raw search output"],
     dict(technique=TEC, level="exploration", note="No contract yet: bounded runs of the program on generated mail against a reference written from the manual."))

prop("C09", "A size term selects exactly the messages within the given size range",
     "'z:A-B' selects exactly the messages whose size lies strictly between A and B (the ends may be given in either order), 'z:A-' those larger than A, 'z:-B' and 'z:B' those smaller than B; 'k' and 'M' multiply by 1024 and 1048576. "
     "A value too large to represent acts as the largest size and never as a small or negative one, and malformed expressions are refused.",
     ["inputs"], "all size expressions and all message sizes",
     "the tests search for three ranges over a fixed set of messages",
     ["search.c"],
     [("number and unit", "search.c parse_size_expr"), ("range", "search.c parse_size_range"), ("selection", "search.c find_size_matches_in_table")],
     [("size_table", "message sizes", "reader.h struct read_db")],
     ["raw search output for z: terms"],
     dict(technique=TEC, note="Number parser, range parser and selection loop proved for all expressions and sizes. sscanf %ld%n assumed."))

prop("C10", "A flag term selects exactly the messages with and without the given flags",
     "'F:' followed by letters from s, r, f (seen, replied, flagged), each optionally preceded by '-', selects exactly the messages that have every flag named plainly and none of the flags named after a '-'. "
     "A message's flags are those in its maildir file name after ':2,' or in the Status and X-Status headers of an mbox message, at the time it was last indexed.",
     ["inputs", "configurations"], "all flag expressions, all flag sets of messages in every folder format",
     "the tests use one flag search over a few messages",
     ["search.c", "rfc822.c", "writer.c"],
     [("selection", "search.c find_flag_matches_in_table"), ("flag byte", "search.c get_maildir_flags_from_msg, writer.c"), ("headers", "rfc822.c parse_rfc822_headers, scan_status_flags")],
     [("msg_type_and_flags", "type and flag bits of each message", "reader.h struct read_db")],
     ["raw search output for F: terms", "file names of maildir results"],
     dict(technique=TEC, note="Expression loop and selection proved for all expressions and all flag bytes; how flags are collected from file names and headers is under contract where listed in the evidence, otherwise bounded."))

prop("C11", "A date term selects exactly the messages of the period it names",
     "'d:P' selects the messages dated in the day, month, year or relative period P, 'd:S-' those after the start of S, 'd:-E' those up to the end of E, and 'd:S-E' those from S to E; a bare day, month or year is completed from the current date, in a range the start is completed from the end. "
     "Months have their true number of days, two-digit years mean 1970 to 2069, relative amounts in d, w, m, y count back from now, and malformed expressions are refused.",
     ["inputs", "configurations"], "all date expressions, all current dates and all message dates from 1900 on",
     "the tests run fixed expressions; leap years, month ends, completion from the current date and overflow are never reached",
     ["dates.c", "search.c", "datescan.nfa"],
     [("token kinds", "datescan.nfa, dates.c discover_type"), ("calendar", "dates.c last_day, fix_year, set_day, is_later_dm, scan_date_expr"), ("range", "dates.c scan_date_string"), ("selection", "search.c find_date_matches_in_table")],
     [("date_table", "message dates", "reader.h struct read_db")],
     ["raw search output for d: terms"],
     dict(technique=TEC, note="Every function of dates.c and the selection loop proved; the token automaton is compared exactly with the regular languages of the manual. Messages dated exactly at the first second of the start day of a two-ended range, and years before 1900, are unconstrained."))

prop("C12", "Mbox files are split into messages exactly at their separator lines",
     "In an mbox file a message starts after every line that begins with 'From ', an address and a complete date, and at no other line; with mbox format mmdf messages are what lies between pairs of separator lines. "
     "Every byte of a message belongs to exactly that message, wherever the separators fall in the file, and compressed mboxes are split like plain ones.",
     ["inputs", "configurations"], "all mbox and mmdf contents",
     "the tests index one mbox; lines that almost look like separators and separators at odd places are not reached",
     ["mbox.c", "fromcheck.nfa"],
     [("separator lines", "fromcheck.nfa, mbox.c looks_like_from_separator"), ("splitting", "mbox.c find_next_from, find_next_mmdfsep, start_of_next_line, rescan_mbox")],
     [("start, len", "position of each message", "mairix.h struct mbox")],
     ["dump of the database", "mbox search output"],
     dict(technique=TEC, note="Recognition, search and splitting of mbox and mmdf files proved for all contents against the separator language; the automaton tables are compared exactly with that language; decompression is bounded (runs of the program)."))

prop("C13", "After every update the index describes the mail that exists now",
     "After any sequence of deliveries, deletions, moves, flag changes, rewrites and mbox edits (appending, removing from the end, replacing), one 'mairix' run makes searches return exactly the messages that exist, by their present content. "
     "Messages that did not change are not lost or duplicated, and vanished messages are never returned.",
     ["histories"], "all histories of changes to maildir, MH and mbox folders between updates (a change inside an mbox that keeps its size and last message is unconstrained)",
     "the tests run one or two fixed updates",
     ["db.c", "mbox.c", "mairix.c"],
     [("known messages", "db.c update_database, lookup_msgpath, add_msg_path"), ("mbox changes", "mbox.c build_mbox_lists, find_number_intact, message_is_intact")],
     [("mtime, size, checksum", "what identifies an unchanged message", "mairix.h")],
     ["raw search output after each update"],
     dict(technique=TEC, note="update_database proved: for every index and every list of files found, a message stays exactly when its file is there unchanged, every other file is added exactly once, and any change is reported; what is kept of a known mbox (intact messages, lookup by name) is proved. Histories of runs are bounded."))

prop("C14", "The words of every text part are indexed as the reader sees them",
     "The text of a message is indexed after undoing its transfer encoding (7bit, 8bit, base64, quoted-printable, uuencode), through nested multipart and message/rfc822 parts; HTML is indexed without its tags. "
     "Header words encoded as RFC 2047 are indexed decoded, and attachment names are indexed in lower case.",
     ["inputs"], "all message structures, encodings and line layouts",
     "the tests hold a few fixed messages",
     ["rfc822.c", "tok.c"],
     [("decoding", "rfc822.c unencode_data, hex_to_val, decode_header_value"), ("structure", "rfc822.c do_body, do_multipart, do_attachment"), ("headers", "rfc822.c parse_rfc822_headers")],
     [], ["dump of the database", "search results"],
     dict(technique=TEC, note="Undoing base64, quoted-printable and uuencode (and leaving the others alone) proved for all texts; MIME structure and RFC 2047 words are bounded (runs of the program)."))

prop("C15", "Text is cut into words the same way everywhere",
     "A word is a maximal run of letters, digits and underscores, folded to lower case; in To, Cc and From, maximal runs that also contain '+', '-', '.' and '@' are indexed as well. "
     "Nothing else is indexed and no word is cut short, however long the text.",
     ["inputs"], "all header and body texts",
     "the tests index ordinary text",
     ["tok.c", "db.c", "nvp.c"],
     [("word characters", "db.c char_valid_p"), ("tokenisers", "db.c tokenise_string, tokenise_html_string, tokenise_message")],
     [], ["dump of the database"],
     dict(technique=TEC, note="The cutter (plain and HTML) and the character classes proved for all texts; which headers use which class is bounded (runs of the program)."))

prop("C16", "Wildcards in folder and omit lists match exactly the names they describe",
     "'*' matches any run of characters except '/', '**' any run at all, '?' one character, '[...]' one character of the set (ranges in either order, ']' first and '-' first or last stand for themselves), and every other character itself; a pattern matches only whole names. "
     "This holds for every pattern of up to 31 elements (a longer one is a known finding), and lists are split at every ':' that is not written as '\\:'.",
     ["inputs", "configurations"], "all patterns of up to 31 elements, all names, all lists",
     "the tests use a couple of wildcards",
     ["glob.c"],
     [("compilation", "glob.c make_globber, parse_charclass"), ("matching", "glob.c is_glob_match, is_globber_array_match"), ("lists", "glob.c split_on_colons, copy_folder_name")],
     [("pat, starpat, twostarpat, hit", "bit n: element n of the pattern", "glob.c struct globber")], ["which folders are indexed"],
     dict(technique=TEC, note="Pattern compiler and matcher proved equal to the inductive definition of matching for all patterns of up to 31 elements and all names; the splitting of colon-separated lists is bounded (native, exhaustive over small patterns)."))

prop("C17", "Exactly the folders named in the configuration are indexed",
     "The messages indexed are exactly those in the maildir, MH and mbox folders that the configuration lists (by name, by wildcard in the last component, or with '...' at any depth below), less the omitted ones and, unless asked for, symbolic links to mboxes. "
     "'~/', $VAR and ${VAR} are expanded wherever they stand, several lines of one kind add up, and the MAIRIX_ environment variables replace what they name.",
     ["configurations", "inputs"], "all directory trees, folder lists, omit lists and environments (folders below an omitted directory are unconstrained)",
     "the tests use one small tree with plain lists",
     ["dirscan.c", "mbox.c", "mairix.c", "expandstr.c"],
     [("traversal", "mbox.c glob_and_expand_paths, handle_one_path, append_deep"), ("recognition", "dirscan.c filter_is_maildir, filter_is_mh, valid_mh_filename_p"), ("expansion", "expandstr.c expand_string")],
     [], ["raw search output"],
     dict(technique=TEC, note="Proved: recognition of folders (mbox.c filter_is_file, dirscan.c filter_is_maildir, filter_is_mh and the treatment of directory entries), the walk through a tree (append_shallow, append_deep), what an entry of a folder list asks for (handle_one_path, handle_wild, handle_single), the message files of a folder (get_maildir_message_paths, get_mh_message_paths, valid_mh_filename_p). Bounded only: the loops over lists (glob_and_expand_paths, build_message_list), symbolic links (build_mbox_lists), the configuration file and its expansion."))

prop("C18", "At most one run works on a database at a time, and none leaves its lock behind",
     "While the lock file of a database exists, whoever made it and whatever it holds, every other run refuses to work, with a non-zero status and without changing anything. "
     "A run removes its own lock however it ends, including on SIGHUP, SIGINT and SIGQUIT, and never removes another's unless told to by --unlock.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of runs, all contents and permissions of the lock file, all ways a run can end",
     "the tests never run two processes",
     ["dotlock.c", "mairix.c"],
     [("locking", "dotlock.c lock_database"), ("unlocking", "dotlock.c unlock_database, unlock_and_exit, mairix.c handlesig")],
     [("lock_held", "the lock file is ours", "dotlock.c")], ["exit status", "files next to the database"],
     dict(technique=TEC, note="lock_database, unlock_database and unlock_and_exit proved against a file system that may answer anything; that main locks before it works and unlocks on every way out is bounded (runs, signals, racing processes)."))

prop("C19", "Searching never damages mail",
     "A search never changes anything outside its match folder, and refuses a match folder that is one of the indexed folders, however its path is spelt. "
     "Inside the match folder it removes only what earlier results could be (links and files in new and cur, or with numeric names, or the mbox itself), and with -a nothing.",
     ["inputs", "histories", "configurations"], "all match folders and their contents, all sequences of searches, all output formats",
     "the tests search into fresh folders",
     ["mairix.c", "search.c", "dirscan.c"],
     [("refusal", "mairix.c member_of"), ("clearing", "search.c clear_maildir_subfolder, clear_mh_folder, clear_mbox_folder"), ("numeric names", "dirscan.c valid_mh_filename_p"), ("writing", "search.c create_symlink, try_copy_to_path")],
     [], ["the mail store before and after a search"],
     dict(technique=TEC, note="The functions that delete in the match folder proved to remove only what earlier results could be, and all of it; the refusal of indexed folders is bounded (runs of the program on many spellings)."))

prop("C20", "Sorted results are complete and in date order for every pair of dates",
     "With sort=date+ every search lists exactly the messages it would list unsorted, ordered so that no message precedes an earlier-dated one, whatever their dates.",
     ["inputs"], "all sets of matching messages and all dates",
     "the tests never sort",
     ["search.c"], [("order", "search.c date_cmp and the sort before output")], [], ["raw search output"],
     dict(technique=TEC, note="The comparison is proved to be the order of the dates for all pairs (hence a total preorder, lemma); qsort assumed."))

prop("C21", "The match folder holds exactly the matching messages",
     "After a search the match folder, in maildir, MH or mbox format, stands for exactly the matching messages, each once, in the order of the raw listing: message files as links to them, mbox messages as copies of their bytes, with maildir flags and new or cur according to the message. "
     "A message of an mbox that changed since indexing is left out with a warning rather than handed out wrong; -a adds to what is there; the exit status is 0 exactly if something matched.",
     ["inputs", "histories", "configurations"], "all sets of matching messages of all types, all flags, sizes and endings",
     "the tests count results in one format",
     ["search.c"],
     [("names", "search.c mk_maildir_path, mk_mh_path, looks_like_maildir_new_p"), ("copies", "search.c try_copy_to_path, append_mboxmsg_to_mbox, mbox_terminate"), ("mbox validation", "search.c get_validated_mbox_msg")],
     [], ["entries and contents of the match folder", "exit status"],
     dict(technique=TEC, note="Result names, flags, new/cur and mbox termination proved for all inputs; the loops over the results and the copying are bounded (runs of the program) where not listed as proved in the evidence."))

prop("C22", "No message, however damaged, stops the indexing of the others",
     "Whatever bytes a message file or mbox holds, indexing runs to its end without reading or writing memory out of bounds, and every other message is indexed as usual.",
     ["inputs"], "all byte sequences as message files and mboxes",
     "the tests index well-formed mail",
     ["rfc822.c", "nvp.c", "mbox.c", "db.c"],
     [("parsing", "rfc822.c data_to_rfc822, parse_mime, unencode_data, decode_header_value"), ("parameters", "nvp.c make_nvp"), ("mboxes", "mbox.c rescan_mbox")],
     [], ["exit status", "search results for the sound messages"],
     dict(technique=TEC, note="Memory safety of the transfer decoders proved for all bytes; the rest of the parsers is bounded (runs of the program on damaged mail)."))
