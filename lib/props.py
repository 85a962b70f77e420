"""The properties: single source of properties.jsonl and MANIFEST.json (see gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="model_checking", note=None,
         state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, state=state, observe=observe, na=na))


prop("L01", "Lock files give mutual exclusion and never outlive their owner",
     "At most one running process at a time holds a given lock (program lock, explicit lock file, or BSY file of a "
     "link), whatever the interleaving and whatever lock file was there before, and a lock file names its holder. "
     "A lock file left by a process that no longer runs is taken over, one of a running process never is. A waiting "
     "process gets the lock once it is free, a non-waiting or timed one reports failure without it, and releasing "
     "removes the lock file.",
     ["schedules", "crash_points"],
     "every interleaving of file operations of 2-3 processes (up to a preemption bound), every crash point of a "
     "holder, every kind of pre-existing lock file, each wait mode",
     "unit tests never run two processes; a lost race or a stale file shows only in particular interleavings",
     ["src/common/lock.c", "src/common/binkley.c"],
     [("lock_lockfile: O_EXCL creation, owner pid check", "src/common/lock.c"),
      ("bink_bsy_create/delete", "src/common/binkley.c")],
     "stateless model checking of the real code: controlled scheduler enumerates all preemption-bounded interleavings",
     note="The real lock code runs under a ptrace scheduler that owns every file operation; all schedules within the "
          "preemption bound and all crash points are explored, so a violation is a replayable schedule.")

prop("L03", "Sequence numbers are never handed out twice",
     "A number drawn from a sequence file (packet names, message ids) is never returned again to any process: "
     "concurrent draws, the first draw that creates the file, and draws after a crash all give distinct, increasing "
     "numbers that survive in the file.",
     ["schedules", "crash_points", "histories"],
     "all interleavings of concurrent draws up to a preemption bound, creation included, and all crash points of a draw",
     "tests draw at most one number in one process; duplicates need two processes or a crash",
     ["src/common/sequencer.c", "src/common/lock.c"],
     [("sequencer: open, lock, read, write back", "src/common/sequencer.c")],
     "stateless model checking of the real code: controlled scheduler enumerates all preemption-bounded interleavings",
     note="Real sequencer code under the controlled scheduler; every interleaving within the bound.")

prop("L04", "Concurrent work on an outbound flow file loses no entry",
     "When several processes attach files to one link's flow file while a mailer reads, marks or deletes it, every "
     "successful attachment ends up exactly once either in the flow file or in what the mailer read, no entry is "
     "damaged or invented, and no BSY file stays behind.",
     ["schedules"],
     "all interleavings of 2-3 processes attaching/reading/deleting, with and without BSY files, up to a preemption bound",
     "tests never have two processes in one flow file; the lost update needs a particular interleaving",
     ["src/common/flo.c", "src/common/binkley.c", "src/common/lock.c"],
     [("flo_open/flo_openx: lock and re-check", "src/common/flo.c"), ("bink_attach", "src/common/binkley.c")],
     "stateless model checking of the real code: controlled scheduler enumerates all preemption-bounded interleavings",
     note="Real flow-file code under the controlled scheduler; every interleaving within the bound, judged by a "
          "conservation oracle.")


# seconds of the quick tier, 8 cores
COST = {"L01": 60, "L03": 20, "L04": 20, "T01": 20, "T02": 15, "T03": 15, "T04": 15, "T05": 25, "R01": 15, "R02": 15, "R03": 35, "A01": 12,
        "A02": 12, "A03": 15, "M01": 21, "G01": 25, "G02": 20, "G03": 25, "G05": 20, "G06": 40, "G07": 65, "G08": 30, "S01": 58, "K01": 19, "K02": 10, "R04": 32, "H01": 16, "H02": 45, "G04": 28, "P02": 50}
# what the checks said of the planted bugs, where it's more than "caught by its check"
_m = "missed at first, caught by %s since the enumeration was widened"
SEEDS = {i: _m % i[:3] for i in ("A02-passwd", "A02-lastlink", "A01-diff", "M01-case", "M01-left", "G02-tail", "G03-cache", "G05-postm", "G06-xpost",
                                 "G06-hier", "G07-cross", "S01-replaces")}

TM = ("exhaustive bounded enumeration of inputs, configurations and histories, every one run through the real program "
      "and compared with an executable reference model (state-by-state conformance)")

prop("T01", "Netmail passes the tosser exactly once and unaltered",
     "Every netmail message in an incoming packet is written exactly once, in order, to the packet queue of the "
     "destination that its address kludges, rewrite and remap rules give it, with the right flavour, packet addresses "
     "and password; header fields and text survive byte for byte, control lines aside, whatever the text structure; it "
     "is dropped only where KillEmpty or a remap to 0:0/0.0 says so; observers get their copies, pings their reply; "
     "accepted input packets are removed.",
     ["inputs", "configurations", "histories"],
     "every text structure up to a length over a kludge/tear/origin/RFC line alphabet, every kludge combination and order, "
     "every attribute pair, every ordered pair (triple) of routing rules, every packet history up to a depth under each "
     "packet/file limit",
     "tests toss no packet; loss or damage depends on the combination of line kinds, rules and file limits",
     ["src/toss/ftntoss.c", "src/common/message.c", "src/common/outpkt.c", "src/common/packet.c", "src/common/kludge.c",
      "src/common/routing.c", "src/common/spyes.c"],
     [("toss_pkt/do_netmail/do_rewrite/do_remap", "src/toss/ftntoss.c"), ("pkt_get_body_parse, msg_body_parse", "src/common/message.c"),
      ("outpkt_*: queue, MaxOpenFiles, MaxMsg", "src/common/outpkt.c")],
     TM, note="Text following Via/Recd lines is dropped by design and not enumerated.")

prop("T02", "Echomail reaches exactly the right links with right SEEN-BY and PATH",
     "A message for an area is sent once to every link of the area that is not its sender, not already in SEEN-BY, not a "
     "passive link and not ourselves, to no one else, plus the local gateway where wanted; each copy has the same header and text, "
     "SEEN-BY sorted and complete, PATH extended by us, as the options of the area and the configuration (4D, ZoneGate, "
     "Add/DeleteSeenBy, DeletePath, NoEmptyPath, AddOtherAKA, CheckPath) say; area states follow their machine.",
     ["inputs", "configurations", "histories"],
     "the product of link subsets, passive links, senders and SEEN-BY contents; all area kinds x configurations x SEEN-BY/PATH "
     "shapes; all histories of an area's state up to 3 messages",
     "tests toss no echomail; duplicates and losses depend on the combination of links, SEEN-BY and options",
     ["src/toss/ftntoss.c", "src/common/node.c", "src/common/areasbbs.c", "src/common/message.c"],
     [("do_echomail, do_check_path, do_seenby", "src/toss/ftntoss.c"), ("lon_*: lists of nodes", "src/common/node.c"),
      ("areasbbs lookup and states", "src/common/areasbbs.c")],
     TM)

prop("T03", "Duplicate echomail is recognised exactly, across runs and expiry",
     "With DupeCheck, a message is treated as a duplicate exactly if a message with the same area and MSGID (without "
     "MSGID: same origin, date, names and subject) was accepted before from a trusted sender and has not expired: in the "
     "same packet, another packet or an earlier run, with any number of entries, after expiry of others, and whichever "
     "of several tossers saw it. Nothing else is ever dropped as duplicate; KillDupe, KillOld, KillNoMSGID decide what "
     "becomes of it; otherwise it is kept as bad mail.",
     ["inputs", "histories", "schedules"],
     "all ordered pairs of 37 message variants in one packet or two runs, all operation sequences (toss, ageing, expiry) "
     "up to depth 4 (5), all schedules of two tossers on one history",
     "tests have no history; the loss shows only after a particular sequence of runs, expiries or a race",
     ["src/toss/ftntoss.c", "src/common/histdb.c", "src/common/dbz.c", "src/toss/ftnexpire.c"],
     [("do_echomail: dupe check", "src/toss/ftntoss.c"), ("hi_test, hi_write_t", "src/common/histdb.c"),
      ("do_expire: rewrite of text and index", "src/toss/ftnexpire.c")],
     TM, note="Keys are compared as dbz defines them: case-insensitively after an @ (RFC 822).")

prop("T04", "Echomail is accepted only from those entitled to send it",
     "A message for an area is distributed only if it has an origin address, the packet has the password configured for "
     "its sender, it is addressed to one of our addresses (unless -n), the sender is linked to the area or ourselves "
     "(unless -t), the area exists, and with CheckPointOriginAddr a point's origin is his own address. Otherwise nothing "
     "is sent anywhere and the message is kept complete as bad mail, to be tossed again, unless the kill option for that "
     "very reason is set.",
     ["inputs", "configurations"],
     "the full product of senders, recipients, packet passwords, areas, origin/MSGID forms, kill options, options -n/-t and "
     "passwd files",
     "tests toss nothing; a hole shows only for a particular combination of sender, password, area and option",
     ["src/toss/ftntoss.c", "src/common/passwd.c", "src/common/parsenode.c", "src/common/areasbbs.c"],
     [("do_echomail: security checks", "src/toss/ftntoss.c"), ("passwd_lookup", "src/common/passwd.c"), ("msg_parse_origin", "src/common/message.c")],
     TM)

prop("T05", "No message is lost when the tosser crashes or a file operation fails",
     "Whenever ftntoss is killed, or any single file operation fails (disk full, I/O or permission error), every message of "
     "the input survives: after the next run of ftntoss (rejected packets *.bad renamed to *.pkt) each one has been written "
     "at least once to every destination; every *.pkt visible to the next program is complete and well-formed at any time; "
     "areas.bbs always exists with all areas; the next run is not blocked by what the crash left.",
     ["crash_points", "faults", "histories"],
     "every file operation of a run as crash point, torn write and failing operation, with and without dupe check, file limits, "
     "areas.bbs rewriting; thorough: a second crash in every recovery",
     "tests never interrupt a program; the loss needs a crash between two particular operations",
     ["src/toss/ftntoss.c", "src/common/outpkt.c", "src/common/histdb.c", "src/common/areasbbs.c", "src/common/sequencer.c"],
     [("close_output, unpack_file", "src/toss/ftntoss.c"), ("outpkt_close", "src/common/outpkt.c"),
      ("areasbbs_rewrite", "src/common/areasbbs.c")],
     "exhaustive fault-point exploration of the real program under a controlled executor (every crash point, torn write, failing "
     "operation), with a recovery run and a conservation oracle")

prop("R01", "ftnroute sends every message where the routing rules say, once, unchanged",
     "For every packet queued by the tosser, the first matching rule of the routing file for its type and flavour (send, "
     "sendmove, route, change; xroute, hostroute, bossroute) decides its destination and flavour, otherwise both stay; "
     "wildcards and omitted address parts mean what the documentation says. Every message of it then appears exactly once, "
     "in order, with its header, addresses, control lines and text unchanged, in a well-formed packet with the right grade, type, "
     "flavour, addresses and password, however packets merge; inputs are removed.",
     ["inputs", "configurations", "histories"],
     "all ordered pairs (and triples of a set) of rules over types x flavours x address patterns, applied to packets of every type, "
     "flavour and destination; all texts of up to 3 lines from a line alphabet; header fields; all packet histories of length 4; "
     "hubroute (documented as not implemented) and --repack excluded",
     "a unit test has one rule and one packet; shadowing, wildcards, merging and open file limits need combinations",
     ["src/toss/ftnroute.c", "src/common/routing.c", "src/common/outpkt.c", "src/common/packet.c"],
     [("routing_parse_line", "src/common/routing.c"), ("do_routing, do_cmd", "src/toss/ftnroute.c"),
      ("outpkt_open, outpkt_close", "src/common/outpkt.c")], TM,
     note="Every case within the bounds runs through the built ftnroute; its packets are compared field by field with an "
          "independent executable model.")

prop("R02", "ftnpack puts every message into the right outbound packet or archive, once",
     "Every packet queued for packing is handled by the first matching rule of the packing file (pack, rpack, fpack, dirpack, "
     "dirmove; archiver, noarc, prog, progn): each message ends up exactly once, in order and unchanged, in the outbound packet, "
     "archive or directory of the right node; archives and netmail file attaches get exactly one pending entry in the right "
     "flow file, with the right flavour and disposition. Mail, archives and entries already in the outbound survive. Packets for "
     "busy, unknown or unmatched nodes, rejected packets and those whose archiver fails stay where they are, nothing else changes.",
     ["inputs", "configurations", "histories"],
     "all rules and ordered pairs of rules x packets of all types, flavours, destinations; all combinations of existing outbound "
     "packets, flow file entries, archives and BSY files; all pairs of attach subjects; all texts up to 3 lines; all packet histories "
     "of length 4; all truncation points of a packet",
     "a unit test does not run archivers or build an outbound; wrong reuse of what is already there needs that state",
     ["src/toss/ftnpack.c", "src/common/binkley.c", "src/common/flo.c", "src/common/packet.c"],
     [("do_pack, do_arcmail, do_noarc, arcmail_search", "src/toss/ftnpack.c"), ("bink_attach, bink_find_out", "src/common/binkley.c"),
      ("pkt_open_node, pkt_close", "src/common/packet.c")], TM,
     note="Every case within the bounds runs through the built ftnpack with a stand-in archiver; the outbound before and after "
          "is compared with an independent executable model.")

prop("R03", "No message is lost when ftnroute or ftnpack crash or a file operation fails",
     "Whenever ftnroute or ftnpack is killed, or any single file operation fails (disk full, I/O or permission error), no message, "
     "archive, flow file entry or file attach is lost: what was in the outbound before is intact, and after the next run (the mailer "
     "having taken a truncated outbound packet away) each message has been written at least once where it belongs and each archive "
     "is attached. Packets for the next program are complete at any time, after an error (not a crash) outbound packets are, too. "
     "The next run is not blocked by what a crash left behind.",
     ["crash_points", "faults"],
     "every file operation of a run (archiver included) as crash point, torn write and failing operation, for each kind of packing "
     "and routing with empty and filled outbound; thorough: a second crash in every recovery",
     "tests never interrupt a program; the loss needs a crash or error between two particular operations",
     ["src/toss/ftnroute.c", "src/toss/ftnpack.c", "src/common/packet.c", "src/common/binkley.c", "src/common/outpkt.c"],
     [("close_output", "src/toss/ftnroute.c"), ("do_arcmail, do_noarc", "src/toss/ftnpack.c"), ("pkt_close, pkt_cancel", "src/common/packet.c"),
      ("bink_attach", "src/common/binkley.c")],
     "exhaustive fault-point exploration of the real programs under a controlled executor (every crash point, torn write, failing "
     "operation), with a recovery run and a conservation oracle",
     note="All faults of all listed scenarios are enumerated on the real programs; a crash keeps the order of file operations.")

prop("A01", "areas.bbs survives being rewritten, nothing in it changes but what was asked for",
     "Whatever a sysop may write into areas.bbs (links in full or abbreviated form, points, other nets and zones, passive links, every "
     "option, quoted words, any blanks and line ends, any first line), a program which changes one area leaves every other area "
     "with the same directory, name, options, state and links, its uplinks first and in order; rewriting a file the programs have "
     "written changes nothing else in it. The versions before are kept as areas.o01 to .o05, newest first.",
     ["inputs", "configurations", "histories"],
     "all link lists up to 4 (thorough 5) out of 8 similar addresses in all short and long forms, with -u 0-3; all passive subsets of up to 3 "
     "links both ways; all subsets of the 13 options and all orders of 2 (3); all descriptions, keys, names, directories up to 5 characters "
     "over 5 (4 over 9); all layouts; lines up to 32K, 5000 (20000) areas; all sequences of 3 (4) commands",
     "no unit test rewrites areas.bbs; a lost link shows only for combinations of addresses and options",
     ["src/common/areasbbs.c", "src/common/node.c", "src/common/strtok_r.c"],
     [("areasbbs_parse_line, areasbbs_print, areasbbs_rewrite", "src/common/areasbbs.c"), ("node_to_asc_diff, lon_print_sorted", "src/common/node.c"),
      ("znfp_parse_diff", "src/common/znfp.c")], TM,
     note="The files within the bounds are read and rewritten by the built ftnaf and compared entry by entry using an independent parser of the documented format.")

prop("A02", "Areafix does what a node may do, tells it so, and nothing else",
     "For every request message, node and state of areas.bbs: commands are obeyed only with the node's password and the permissions "
     "(level, key, $ & ~, limits, zone) of its passwd entry, also after PASSWD commands and across messages of one run. Subscribe, "
     "unsubscribe, passive, active, new, delete change exactly the matching areas, the node's links and states; links of other nodes "
     "are untouched. Each uplink gets exactly the requests needed, in a message with its robot's name and password. The reply "
     "names every outcome, nothing is cut off. Without a change areas.bbs is not rewritten.",
     ["inputs", "configurations", "histories"],
     "all commands x requesters x passwords x permissions; all command sequences of length 2 and, of subsets, 3 and 4; all histories of 2 "
     "and 3 messages (one packet, several packets, several runs); limits; forward requests to uplinks with similar addresses; all "
     "pairs (thorough: up to 4) of configuration options; listall, help and area keys of several characters excluded",
     "unit tests do not run areafix; authorization leaks and lost requests need sequences of commands and nodes",
     ["src/areafix/areafix.c", "src/areafix/ftnafpkt.c", "src/common/areasbbs.c", "src/common/passwd.c", "src/common/uplinks.c", "src/common/wildmat.c"],
     [("areafix_auth_check, areafix_do_cmd, cmd_sub, cmd_unsub, send_request", "src/areafix/areafix.c"), ("do_netmail", "src/areafix/ftnafpkt.c"),
      ("uplinks_lookup", "src/common/uplinks.c")], TM,
     note="Every case within the bounds runs through the built ftnafpkt; areas.bbs, requests and replies are compared with an "
          "independent executable model of the robot.")

prop("A03", "Changes of areas.bbs survive crashes, errors and concurrent programs",
     "At every crash point, torn write or failing file operation of ftnafpkt, ftnaf and ftnafutil there is a complete areas.bbs, the old "
     "or the new one. After running the program again every command has its effect, every request to an uplink and a reply to every "
     "requester has been sent, no request is invented, no lock is left; an exit code of 0 means it was done. When several programs "
     "(also ftntoss) change areas.bbs at once, no change is lost.",
     ["crash points", "fault points", "schedules", "histories"],
     "every file operation of 9 (thorough 10) runs x kill, torn write, error, short write, sticky error, each followed by recovery, thorough and quick: "
     "kill at each operation of the recovery; every schedule with at most 2 (3) preemptions of 6 pairs of programs",
     "crash points and interleavings of processes can't be reached by unit tests",
     ["src/areafix/ftnafpkt.c", "src/areafix/ftnaf.c", "src/areafix/ftnafutil.c", "src/common/areasbbs.c", "src/common/lock.c", "src/common/outpkt.c"],
     [("do_file, main", "src/areafix/ftnafpkt.c"), ("main", "src/areafix/ftnaf.c"), ("do_areasbbs, main", "src/areafix/ftnafutil.c"),
      ("areasbbs_rewrite", "src/common/areasbbs.c"), ("send_request", "src/areafix/areafix.c")],
     "stateless exploration of the real programs with mcx: exhaustive fault injection at every file operation with recovery runs, and "
     "exhaustive preemption-bounded schedules of 2-3 processes")


prop("M01", "Texts survive MIME encoding and decoding of headers and bodies",
     "For every text and character set: the header encoder's lines are at most 78 characters, hold only ASCII, break only at blanks, "
     "each encoded word is complete in its character set and a standard RFC 2047 reader gets the text back (runs of blanks count as "
     "one). Base64 and quoted-printable bodies keep to 76 columns and decode to exactly the text. The decoders give back what a "
     "standard encoder wrote, in the target character set, for headers, bodies and multiparts (text parts only), never overrun "
     "their buffers and don't crash for damaged input.",
     ["inputs"],
     "header encoder: words of 6 kinds and 1-45 (thorough 89) characters at every column, pairs of 1-12 (25) characters, all sequences "
     "of 4 (5) out of 8 words; body encoders: all sequences of 3 (4) out of 20 lines, sizes around 32K and 64K; decoders: the same "
     "in 9 encodings, 1-2 (3) parts out of 30 in two boundary forms, nested, damaged; all sequences of 3 (4) encoded words, all buffer sizes 2-39",
     "unit tests hold a dozen texts; where lines and multibyte characters are cut depends on every length",
     ["src/common/mime.c", "src/common/textlist.c", "src/common/rfcheader.c", "src/common/charset.c"],
     [("mime_header_enc, mime_header_dec, mime_word_enc_b64, mime_qp_encode_tl, mime_debody_base64, mime_debody_qp, mime_debody_multipart", "src/common/mime.c"),
      ("header_read_list", "src/common/rfcheader.c")], TM,
     note="The real functions are called (ASan and UBSan build) for every text within the bounds; an independent strict reader and writer of RFC 2045/2047 is the oracle.")


prop("G01", "Netmail is gated to the right addresses or bounced for the right reason",
     "ftn2rfc gives each netmail the RFC sender (hosts, aliases, points, zones, From:/REPLYADDR lines), recipients (To:/Cc:/Bcc: lines, "
     "name or address in the To field, aliases, tracker and gateway names), envelope, Message-ID and References, date and attribute "
     "headers that its addresses, names, kludges and the configuration call for; mail which is not allowed (-t, HostsRestricted, "
     "down hosts, NoAddressInToField, UUCP without To:) is bounced to its sender instead, quoting the text; nothing of one message gets into another one.",
     ["inputs"],
     "30 names x 11 To: lines x all pairs of 10 options; 17 senders x 4 recipients x 5 To: lines x 6 options x 3 hosts tables x -i/-t; 9 INTL x 8 "
     "point kludges; 20 identification x 7 reply x 19 other kludges x 9 options, all pairs of the others; 7 From: x 5 To: x 12 further lines x 5 alias tables; all pairs of attribute bits; 10 dates x 5 time zones",
     "unit tests have a few messages with one configuration; addressing is decided by combinations of message fields and options",
     ["src/gate/ftn2rfc.c", "src/common/rfcaddr.c", "src/common/address.c", "src/common/hosts.c", "src/common/aliases.c", "src/gate/bounce.c", "src/common/msgid.c"],
     [("unpack, get_from", "src/gate/ftn2rfc.c"), ("rfcaddr_from_ftn, rfcaddr_from_rfc", "src/common/rfcaddr.c"), ("str_ftn_to_inet, addr_is_domain", "src/common/address.c"),
      ("alias_lookup_strict", "src/common/aliases.c"), ("bounce_mail", "src/gate/bounce.c")], TM,
     note="Every message runs through the built ftn2rfc; the RFC messages are read by an independent parser and compared with an independent executable model.")

prop("G02", "Gated texts keep every character and never break the RFC message",
     "The text and the header fields of a message gated to mail or news say the same as the FTN message: a reader following the declared "
     "character set and encoding (8bit, quoted-printable, base64, encoded words) gets the FTN text in the character set announced by the "
     "message or configured (characters missing in the target are replaced); 8 bit text is never declared 7bit; no FTN field can add "
     "or end RFC header lines; Lines: counts the lines; text kludges, soft CRs, LFs and control characters are treated as documented.",
     ["inputs"],
     "all sequences of up to 2 (thorough 3) of 31 lines, and of 3 of 12, with 3 endings in 15 netmail and 11 echomail configurations; 48 character set kludges x 5 "
     "headers x 4 texts x 2 alias tables x 26 configurations; lines of 0-200 and up to 32000 octets, header fields of every length",
     "unit tests hold a few texts; folding, encoding and recoding go wrong at particular lengths and combinations",
     ["src/gate/ftn2rfc.c", "src/common/charset.c", "src/common/mime.c", "src/common/message.c", "src/common/textlist.c"],
     [("ftn2rfc_finish_mime, charset_from_kludge, header_one_line, check_8bit", "src/gate/ftn2rfc.c"), ("msg_xlate_line", "src/common/message.c"),
      ("charset_recode_buf, charset_chrs_name, charset_is_convertible", "src/common/charset.c")], TM,
     note="Every message runs through the built ftn2rfc; the RFC messages are decoded by an independent strict MIME reader and compared with an independent model of the FTN text.")

prop("G03", "Echomail becomes news in the right group; no message depends on others",
     "ftn2rfc posts each echomail message to the newsgroup its area, the address it came to and the areas table (exact and hierarchical "
     "entries, first match, -!, AreasXlate, FTNJunkGroup) call for, with the path, distribution, extra headers, organisation, identification, "
     "copies by name (CarbonNameGroup) and X-FTN headers due, or drops it for a documented reason; batches hold exactly the articles of a packet "
     "with right lengths; the article or mail made of a message is the same whatever messages were gated before it.",
     ["inputs", "histories"],
     "all ordered choices of 1-3 of 14 areas entries x 14 tags x 4 addresses x 3 option sets; 605 messages x all sets of up to 2 (thorough 3) of 12 "
     "options; 16x64 names x 35 name lists; all sequences of 7 kinds of messages up to 3 (thorough 4), all distributions over 3 packets; every ordered pair "
     "of 34 and triple of 13 (thorough 34) messages in 30 configurations",
     "unit tests gate one message at a time; state kept between messages needs particular sequences",
     ["src/gate/ftn2rfc.c", "src/common/areas.c", "src/common/mail.c", "src/common/msgid.c", "src/common/config.c"],
     [("news_msg, unpack, ftn2rfc_kludge", "src/gate/ftn2rfc.c"), ("areas_lookup, area_build", "src/common/areas.c"), ("mail_open, mail_close", "src/common/mail.c"),
      ("s_msgid_fido_to_rfc", "src/common/msgid.c")], TM,
     note="Every sequence runs through the built ftn2rfc; each article is compared with a model which sees one message at a time, so any influence of earlier messages is a difference.")

prop("G05", "Internet mail becomes FTN netmail to the right system and name",
     "rfc2ftn turns mail for FTN recipients (arguments, or To/Cc/Bcc with -t) into one netmail message per recipient: address by the HOSTS table, the domain "
     "forms, Gateway or aliases; names cut, capitalised and quoted as documented; sender by From/Reply-To and aliases; INTL/FMPT/TOPT, attributes by X-Flags and its "
     "policy, identification, kludges, tear and Via lines by the options; packets from the AKA and to the uplink of the destination's zone; unknown, down or "
     "forbidden destinations and oversized mail are refused with an error or notice and never gated.",
     ["inputs", "configurations"],
     "39 domains x 3 users x 4 senders x 16 settings; 12 address forms; all lists of up to 3 of 7 recipients in 3 ways; 52 senders x option sets; 6 fields x 64 names; "
     "X-Flags x policies x origins; all sets of up to 2 (thorough 3) of 16 options x 22 messages; 5 AKA sets x 9 recipients (pairs); rule lists of up to 2 of 10",
     "unit tests and integration tests gate a few dozen messages; addresses depend on hosts, aliases, AKAs, options and header forms together",
     ["src/gate/rfc2ftn.c", "src/common/rfcaddr.c", "src/common/address.c", "src/common/hosts.c", "src/common/aliases.c", "src/common/rfcheader.c", "src/common/acl.c"],
     [("rfcaddr_to_ftn, snd_mail, snd_message", "src/gate/rfc2ftn.c"), ("inet_to_ftn, rfcaddr_from_rfc", "src/common/rfcaddr.c"), ("addr_token", "src/common/rfcheader.c"),
      ("hosts_lookup", "src/common/hosts.c"), ("alias_lookup", "src/common/aliases.c")], TM,
     note="Every combination runs through the built rfc2ftn; all fields of every message are compared with the model.")

prop("G06", "News becomes echomail in the right areas from the right address",
     "rfc2ftn turns each article (from stdin, an rnews batch or a list of files) into one echomail message per newsgroup found in the areas table (first match, "
     "hierarchies with AreasXlate, -!), unless crossposting rules, CheckAreasBBS, size limits, access rules or Control forbid it; each is sent from the AKA and to the "
     "uplink areas.bbs or the areas table call for, with AREA, Origin, SEEN-BY/PATH, MSGID, addressee (X-Comment-To or first text line), kludges and per-area "
     "charset/origin/level/limits due, and is the same whatever articles were processed before; packets honour SinglePKTs and -m.",
     ["inputs", "configurations", "histories"],
     "all ordered pairs of 11 areas entries x 15 groups; crossposts of 2-3 of 7 groups x 4 senders; 7 AKA sets x 11 areas.bbs x 7 area options x 5 batches x 5 options; sizes 0-40 x limits; "
     "all sets of up to 2 (thorough 3) of 15 options x 21 articles; first-line rules; rule lists of up to 2 of 9; all sequences of up to 3 of 11 kinds of articles x batch modes",
     "tests gate single articles with one AKA; wrong addresses and lost articles need particular tables, sequences and batch modes",
     ["src/gate/rfc2ftn.c", "src/common/areas.c", "src/common/areasbbs.c", "src/common/config.c", "src/common/packet.c", "src/common/acl.c", "src/common/read.c"],
     [("snd_mail, snd_message, print_origin, print_seen_by", "src/gate/rfc2ftn.c"), ("areas_lookup, area_build", "src/common/areas.c"), ("cf_set_best, cf_set_curr", "src/common/config.c"),
      ("areasbbs_lookup", "src/common/areasbbs.c"), ("acl_ngrp_lookup", "src/common/acl.c")], TM,
     note="Every sequence runs through the built rfc2ftn; each message is compared with a model which sees one article at a time, so any influence of earlier articles is a difference.")
prop("G07", "Texts and headers reach the FTN message unchanged, in its character set",
     "The text of every message rfc2ftn gates (8-bit, base64 or quoted-printable, in any declared character set) is the FTN message's text line by line, converted to the charset "
     "named by X-FTN-Kludge CHRS, the area, NetMailCharset or DefaultCharset, with only tear lines, Origin and SEEN-BY lookalikes defused; Q/B encoded words, folded and undeclared 8-bit "
     "header values give the same subject, names and kludges; the CHRS kludge names the charset used; a split message's parts in order make up the whole text, each within the limit "
     "(plus one line) with unique MSGIDs, the same SPLIT and numbered subjects.",
     ["inputs", "configurations"],
     "all texts of up to 2 lines out of 29 kinds x 5 transfer encodings x 5 character sets x 4 charset configurations, of up to 3 (thorough 4) out of 6; 5 CHRS kludges x content types; 13 subjects "
     "and 12 senders x Q/B/8-bit x 3 character sets x folding; 9 other headers x 7 options; all texts of up to 5 (6) lines out of 4 x 3 limits; parts x 4 options x 8 headers",
     "tests decode a few samples; garbled or lost text needs particular combinations of encodings, character sets and line ends",
     ["src/gate/rfc2ftn.c", "src/common/mime.c", "src/common/charset.c", "src/common/rfcheader.c", "src/common/msgid.c"],
     [("snd_message, print_tear_line, determine_charsets", "src/gate/rfc2ftn.c"), ("mime_debody, mime_header_dec", "src/common/mime.c"), ("charset_recode_buf", "src/common/charset.c"),
      ("header_decode, header_ca_rfc", "src/common/rfcheader.c")], TM,
     note="Every message runs through the built rfc2ftn and is compared octet by octet with what Python's codecs make of the same text.")

prop("G08", "A crash or a failing file operation of a gateway program loses no message",
     "Whatever file operation of ftn2rfc, rfc2ftn or ftninpost fails (open, write, short write, full disk, rename, unlink, lock, read) or wherever the program is killed, "
     "every message it was given is afterwards, or after running it again on what is left, completely in its output (mail, news batch, FTN packet, the mailer's input) or still in its "
     "input; an input (packet, list, batch, mail file) is removed or its position advanced only when its messages are out; incomplete output never gets a final name, messages already "
     "waiting in an outbound packet are kept, and failure is reported by the exit code.",
     ["crash_points", "faults", "histories"],
     "every crash point, every file operation failing with every errno, every short and torn write, persistent failures, then recovery runs, in 21 scenarios (packets, news, lists, batches, "
     "outbound packets, size limits, mail to the mailer)",
     "no test injects a fault or kills a program; loss needs the one operation that fails between output and removal of the input",
     ["src/gate/rfc2ftn.c", "src/gate/ftn2rfc.c", "src/common/mail.c", "src/common/packet.c", "src/common/outpkt.c", "src/gate/ftninpost.c", "src/common/read.c", "src/common/bounce.c"],
     [("main, process list, snd_mail, snd_message", "src/gate/rfc2ftn.c"), ("main, unpack_file, process_mail", "src/gate/ftn2rfc.c"), ("mail_open, mail_close", "src/common/mail.c"),
      ("pkt_open, pkt_close", "src/common/packet.c"), ("do_dir, main", "src/gate/ftninpost.c")],
     "stateless model checking of the real programs: exhaustive enumeration of crash points, torn writes and failing file operations, each followed by recovery",
     note="The built programs run under the ptrace fault injector; every file operation of every scenario is made to fail in every way or to be the last, and all messages are accounted for afterwards.")

prop("S01", "No received data is ever interpreted by the shell",
     "Whatever a received message, packet, TIC, archive, article or file name contains, every command run with a piece of it gets exactly that piece as one argument: nothing of it is "
     "interpreted by the shell, no other command is run, no file is created or removed by it. The same holds for options: the name of a new area can't bring options of areafix, and a "
     "file area requested by name gets no directory outside the base directory.",
     ["inputs"],
     "every octet alone, at the start, inside and at the end, every ordered pair of 28 shell metacharacters and 90 classic injections, at each of over 120 places (sender and recipient, "
     "newsgroup, new areas of ftntoss/areafix/ftntick, archives, TIC names and fields, flow file entries, message fields, articles, areafix commands)",
     "a test samples friendly names; injection needs one character at one of many places",
     ["src/common/misc.c", "src/gate/ftninpost.c", "src/gate/ftn2rfc.c", "src/toss/ftntoss.c", "src/toss/ngoper.c", "src/toss/runinc.c", "src/tick/ftntick.c", "src/areafix/areafix.c", "src/util/ftnflo.c"],
     [("s_shell_escape, run_system", "src/common/misc.c"), ("post_file", "src/gate/ftninpost.c"), ("run_unpack, move", "src/toss/runinc.c"), ("process_tic, do_tic", "src/tick/ftntick.c"),
      ("autocreate", "src/areafix/areafix.c")],
     "exhaustive bounded enumeration of hostile values at every place, run through the real programs with recording stand-ins as commands",
     note="The built programs run with stand-ins for every configured command which record their arguments; each recorded call is compared with the one the value calls for, and the scratch "
          "tree is searched for what an injected command would create.")

prop("K01", "Received files reach their area and all links exactly as announced",
     "Each TIC that ftntick accepts puts its file, unchanged, into its area's directory with its description, and into every link's box exactly once unless the link is in the seen-by, "
     "passive, an uplink or the sender; the TIC sent along has that file's name, size, CRC, description and all other known fields, path and seen-by with our address added, addresses and the "
     "link's password. A TIC is accepted only from a link of the area with the right password, the right size and no duplicate of an accepted one; otherwise the file stays and the TIC is "
     "kept, deleted or renamed as configured. Replaces touches nothing but that file of that area. ftnhatch sends every given file so.",
     ["inputs", "configurations", "histories"],
     "every TIC with up to 2 (thorough 3) fields changed under each of the options, areas of 3 links x states x senders x seen-by x uplinks x kinds, histories of up to 3 TICs (same name, "
     "same contents, replacing, case of names, waiting) in one or several runs, ftnhatch arguments x areas",
     "no test runs ftntick; wrong fields need combinations of options, links and earlier TICs",
     ["src/tick/ftntick.c", "src/tick/ftnhatch.c", "src/common/tick.c"],
     [("do_tic, process_tic, check_pass, check_file, do_seenby, add_files_bbs", "src/tick/ftntick.c"), ("hatch", "src/tick/ftnhatch.c"), ("tick_get, tick_put, tick_send, copy_file", "src/common/tick.c")], TM,
     note="Every case runs through the built ftntick or ftnhatch; inbound, area directories, descriptions, boxes, every field of every outgoing TIC and fareas.bbs are compared with the model after each run.")

prop("K02", "A crash or a failing file operation of ftntick loses no file",
     "Whatever file operation of ftntick fails or wherever it is killed, afterwards, or after running it again (a TIC set aside as bad put back), each received file is complete in its area "
     "and has been sent to every link with a complete TIC; a TIC is removed only then; files already in areas or queued for links keep their contents, a replaced file is kept where configured; "
     "no complete TIC announces a missing or incomplete file; fareas.bbs keeps all its areas.",
     ["crash_points", "faults", "histories"],
     "every crash point, torn write, and failing file operation (thorough: every errno, crashes of the recovery) in 8 scenarios",
     "no test kills ftntick; loss needs one operation failing between the steps",
     ["src/tick/ftntick.c", "src/common/tick.c", "src/toss/history.c"],
     [("do_tic, process_tic, move, ftntick_write_history", "src/tick/ftntick.c"), ("tick_send, copy_file, tick_put", "src/common/tick.c")],
     "stateless model checking of the real program: exhaustive enumeration of crash points, torn writes and failing file operations, each followed by recovery",
     note="The built ftntick runs under the ptrace fault injector; after each fault and a recovery run the areas, boxes and inbound are compared with what was received.")

prop("R04", "Every archive and packet received is handed to the tosser, none overwritten",
     "runinc unpacks each recognised archive once, with its own command, and each packet in it or already in the inbound directory reaches the tosser exactly once and unchanged, whatever names "
     "archives, packets and leftovers share; an archive is removed only when it was unpacked and its packets are in the inbound directory, otherwise it is kept in bad beside all others; "
     "tosser, router and packer are started, in turn, for the right directory until nothing is left, ftntick when there is a TIC, the scripts before and after; nothing is started when space "
     "is short; a crash or failing operation loses no packet.",
     ["inputs", "configurations", "histories", "crash_points", "faults"],
     "archives of 5 types x results x listings x names x members, all pairs of archives, packets and leftovers sharing 2 names over 2 (thorough 3) runs, all sequences of up to 2 (3) exit codes of "
     "each program x 8 directories x scripts, free space x limits, all crash points and failing operations of 4 scenarios",
     "no test runs runinc; loss needs equal names in one run or a program that isn't done at once",
     ["src/toss/runinc.c"],
     [("unpack, move_packets, move, run_unpack, arch_type, unpacking_parse_line", "src/toss/runinc.c"), ("run_toss, do_dir, main", "src/toss/runinc.c")],
     TM + "; exhaustive crash and fault enumeration",
     note="The built runinc runs with stand-ins for the programs it starts, which really unpack and take packets away; every octet received is accounted for in tossed, inbound, unpacked and bad.")

prop("G04", "Message ids and references survive the gate in both directions",
     "Every FTN message gets a well-formed Message-ID of its own made of its whole MSGID, and an Internet answer to it carries exactly that MSGID as REPLY; an article's MSGID is the one "
     "doc/old/msgid.doc defines, differs between areas and parts, and an FTN answer to it (to any of its parts or crossposted copies) refers to the article's Message-ID; an answer never refers to "
     "any other message, however discussions mix FTN and Internet users, with and without the database and with ids in MSGID.",
     ["inputs", "histories", "configurations"],
     "220,000 conversions of all ids over a 24 character alphabet (up to 3, thorough 4, characters; lengths to 420/700) in both directions; all discussions of up to 4 (thorough 5) messages by FTN "
     "and Internet users, each an answer to any earlier one or to none, under 6 configurations, as news, mail, crossposts, split articles, with equal numbers and with added domains",
     "tests convert a handful of ids; a wrong reference needs an answer to the right message in the right mode, and a lost id a collision",
     ["src/common/msgid.c", "src/common/histdb.c", "src/gate/ftn2rfc.c", "src/gate/rfc2ftn.c"],
     [("s_msgid_fido_to_rfc, s_msgid_rfc_to_fido, s_msgid_convert_origid", "src/common/msgid.c"), ("hi_write_dbc, hi_fetch", "src/common/histdb.c"), ("unpack", "src/gate/ftn2rfc.c"),
      ("snd_message", "src/gate/rfc2ftn.c")],
     TM, note="The conversions run in the ASan build; discussions go through the built programs, one run per message, with the database on disk in between.")

prop("H01", "The history knows exactly the ids put into it, until they are too old",
     "An id written to a history database is found again - in the same run, after any number of later runs, whatever other ids, file sizes and table sizes - and no other id is, "
     "except that domain parts compare without case; ids of a cancelled run are forgotten; values are returned with the id they were stored for. ftnexpire keeps exactly the ids not older than "
     "the limit of the chosen database (option, own or general configuration), in order, findable, and leaves the other databases alone.",
     ["histories", "inputs", "configurations"],
     "all operation sequences to depth 5 (thorough 6) over 7 sets of 3 similar keys, all pairs of 51 keys, all lengths to 299, texts to 1 GByte around powers of 2, all orders of 6 keys in tables "
     "of 2, 3, 5 slots, up to 3027 ids over 3 tables, all ages around the limit x 10 limit settings x 3 databases, all old/new vectors of 6 ids, sequences of writing, expiring, waiting to depth 4 (5)",
     "tests look up a handful of ids in the default table",
     ["src/common/histdb.c", "src/common/dbz.c", "src/toss/ftnexpire.c"],
     [("hi_init, hi_write_t, hi_write_dbc, hi_write_avail, hi_test, hi_fetch, hi_cancel", "src/common/histdb.c"), ("fetch, store, search, set, dbzagain, putcore, mapcase", "src/common/dbz.c"),
      ("do_expire, do_line, main", "src/toss/ftnexpire.c")],
     TM,
     note="harness/h_hist.c calls the real history functions for each operation sequence, the built ftnexpire runs at a simulated time; text and every lookup are compared with the model.")

prop("H02", "No crash or error while the history changes loses an id or a message",
     "Wherever ftnexpire is killed, whatever operation of it fails, and however it runs together with the tosser or ftntick, every id not too old is known afterwards, without any repair, and "
     "exit code 0 means all was done; the history can be opened, written and expired afterwards and its text has whole entries only; ids written by a program that died before its database was "
     "written never make a message, which is tossed again, a dupe.",
     ["crash_points", "faults", "schedules", "histories"],
     "every crash point, torn write and failing operation of ftnexpire (6 scenarios, 1 of them with crashes of the next run), of a writer (4) and of the tosser followed by ftnexpire and the tosser "
     "(2); all schedules of ftntoss and ftnexpire, ftntick and ftnexpire with 2 (thorough 3) preemptions",
     "no test kills or races ftnexpire; a message is lost only by crash, expire and tossing in this order",
     ["src/toss/ftnexpire.c", "src/common/histdb.c", "src/common/dbz.c", "src/toss/ftntoss.c", "src/tick/ftntick.c"],
     [("do_expire, do_line", "src/toss/ftnexpire.c"), ("hi_init, hi_close, hi_cancel", "src/common/histdb.c"), ("dbzsync, putcore, putconf, dbzagain, dbzfresh", "src/common/dbz.c")],
     "stateless model checking of the real programs: exhaustive enumeration of crash points, torn writes, failing operations and preemption-bounded schedules",
     note="The built programs run under the ptrace scheduler and fault injector; after each execution the ids are looked up through the real library, then once more after another ftnexpire.")

prop("P02", "Damaged or hostile input never crashes or holds up a program",
     "Whatever octets a packet, TIC, article, mail or areafix request from outside has, no program reads or writes outside its memory, crashes, hangs or ends with an error because of it, and the "
     "good packets, TICs, articles and requests before and behind it in the same run are processed exactly once: damaged ones are set aside, refused or passed on.",
     ["inputs", "histories"],
     "every truncation, every octet deleted and replaced by each of 9 (headers 3; thorough 34, 256) values, every token removed, doubled, replaced by texts of 7 lengths (thorough 26) up to 66,000 octets x 5 "
     "(15) fills, of inputs which use all the programs understand; every subset of lines and headers; for ftntoss+ftnroute+ftnpack, ftn2rfc, ftnafpkt, rfc2ftn (news, multipart, mail), ftntick",
     "tests feed a few whole inputs; a missing check shows with one octet at one place, or with a text longer than a buffer, and then stops all mail behind it",
     ["src/common/packet.c", "src/common/message.c", "src/common/misc.c", "src/common/tick.c", "src/common/mime.c", "src/common/rfcaddr.c", "src/common/rfcheader.c", "src/common/date.c",
      "src/toss/ftntoss.c", "src/gate/ftn2rfc.c", "src/gate/rfc2ftn.c", "src/tick/ftntick.c", "src/areafix/areafix.c"],
     [("pkt_get_hdr, pkt_get_msg_hdr, pkt_get_body_parse", "src/common/packet.c"), ("msg_body_parse", "src/common/message.c"), ("tick_get", "src/common/tick.c"),
      ("get_mime_disposition, mime_header_dec, mime_debody", "src/common/mime.c"), ("rfcaddr_from_rfc", "src/common/rfcaddr.c"), ("process_packet, unpack", "src/toss/ftntoss.c")],
     "exhaustive bounded enumeration of all faults (truncation, one octet, one token, subsets of lines) of inputs, run through the real programs with AddressSanitizer as monitor, good inputs around them as oracle",
     note="About 40 damaged inputs share a run, between two good ones; a run that fails is halved until the input responsible is found.")
