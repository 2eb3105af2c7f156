COMMON = 'Decides the rule on every path of the current source (over-approximation: joins, opaque calls, field-based aliasing). ' \
         'Trusts clang IR, the mod/ref summaries and the indirect-call resolution. '

prop('A01', 'Inbound mail is deleted only after complete successful processing',
     'A packet or bundle found in the inbound (or given to be tossed) is scheduled for deletion only after it was processed to the end or set aside under a .bad name; when opening, reading, unpacking, memory or handling of a message fails, or the user interrupts, it stays where it is. '
     'Processing never reports success after such a failure. '
     'The scheduled deletions are carried out only at the end of a run that succeeded, after all outgoing packets were closed, everything was filed in the outbound and no write error occurred.',
     ['inputs', 'fault_sequences', 'crash_points'], 'every packet/bundle content, every failing call at every point, every moment of interruption',
     'the tests toss one good packet on a healthy file system; failures at each of the calls on the way are never produced',
     [T, P, S, 'src/crashmail/safedel.c'], [('toss entry points and deferred delete list', T), ('end-of-run step', S), ('packet reader result', P)],
     COMMON + 'Typestate of the processed file in the toss functions, of the packet in the reader, and of the end-of-run step.')

prop('A02', 'No failure while a message is handled is forgotten',
     'When, while a message is handled, memory runs out, a text line, kludge, seen-by or path entry cannot be stored, a filter copy, import, bad-area copy, bounce, receipt, audit answer or outgoing copy cannot be written, then handling of that message reports failure or the out-of-memory/write-error mark of the run is set. '
     'These marks are never cleared during a run, and a run with either mark set deletes no inbound file.',
     ['inputs', 'fault_sequences'], 'every message, every failing allocation, write or hand-over at any point of handling it',
     'tests never run out of memory or disk; each of the roughly ninety failing calls needs its own fault',
     [H, 'src/crashmail/memmessage.c', 'src/crashmail/filter.c', S], [('message handlers', H), ('message building', 'src/crashmail/memmessage.c'), ('filters', 'src/crashmail/filter.c'), ('end-of-run step', S)],
     COMMON + 'Modular error-propagation analysis: each fallible call is forked, a fixpoint finds the functions that mark every failure. A read error that looks like an end of file is not seen.')

prop('A03', 'Failed writes of messages, packets and flow files never pass for success',
     'A message counts as stored (in a *.msg or JAM message base), written to a packet, copied, or listed in a flow file only if every write to the file and its closing, flushing or renaming succeeded; otherwise the function that issued it and each of its callers report failure or set the write-error mark of the run. '
     'This includes short writes and errors that only show up when a file is flushed or closed. A file that cannot be listed in the flow file gets an .orphan file instead, and failing to write that sets the mark.',
     ['fault_sequences', 'inputs'], 'every failing or short write, flush, close, rename or allocation at any point of storing or sending a message',
     'tests never run with a full or failing disk',
     [P, 'src/crashmail/mb_msg.c', 'src/crashmail/mb_jam.c', 'src/crashmail/outbound.c', 'src/crashmail/misc.c', 'src/jamlib/mbase.c', 'src/jamlib/message.c', 'src/jamlib/structrw.c', 'src/oslib_linux/osfile.c'],
     [('packet writer', P), ('message base writers', 'src/crashmail/mb_jam.c'), ('JAM library', 'src/jamlib/message.c'), ('file layer', 'src/oslib_linux/osfile.c'), ('outbound', 'src/crashmail/outbound.c')],
     COMMON + 'Modular error-propagation analysis from the C library calls up; successful return with a failed write behind it is a violation.')

prop('A04', 'Malformed packets are kept as .bad and their messages are not processed',
     'A message of a packet is handed to message handling only if the packet header was read completely, the packet is type 2, the message header was read, the message type is 2, no header string was too long, and the packet did not end inside the message. '
     'A packet is reported as processed only if its terminator was reached or it was renamed to a .bad name that did not exist before; it is never deleted or overwritten instead. '
     'A file move that cannot be completed leaves the source in place and is reported as failed.',
     ['inputs', 'fault_sequences'], 'every byte sequence offered as a packet, truncated anywhere; every failing rename, copy, write or close',
     'one well-formed packet is in the test suite; truncated and malformed ones are not',
     [P, 'src/crashmail/misc.c'], [('packet reader', P), ('bad-file renaming, move and copy helpers', 'src/crashmail/misc.c')],
     COMMON + 'Guard dataflow from the read primitives to the message handler call; typestate of the move helpers.')

prop('A05', 'Packet destination and password are enforced before any message is processed',
     'Unless security checks are switched off for the run, no message of a packet is processed before the packet destination was found among the own addresses (when checking is configured) and, if the packet comes from a configured node with a packet password, before the password in the packet was found equal to it; only netmail from nodes exempted from the netmail password is excepted. '
     'The node whose password counts is the one whose full address equals the packet origin.',
     ['inputs', 'configurations'], 'every packet header and every node/AKA configuration',
     'no test tosses a packet with a wrong destination or password',
     [P, 'src/shared/node4d.c'], [('security section of the packet reader', P), ('address comparison', 'src/shared/node4d.c')],
     COMMON + 'Guard dataflow: each handler call must be dominated on its path by the checks or by the configured exemption.')

prop('A06', 'Echomail enters an area only from linked systems with write access',
     'Received echomail is imported into or forwarded from an area only if it is the area named by the message, the area is confirmed, and the sending system is linked to it and not read-only there, unless security is switched off for the run or the message was exported locally. '
     'Any other echomail is written to the bad area (if there is one) and goes nowhere else. '
     'An area created for an unknown tag stays unconfirmed unless its sender has the auto-add permission.',
     ['inputs', 'configurations'], 'every echomail message and every area/link configuration',
     'tests toss echomail from one properly linked node only',
     [H, 'src/shared/node4d.c'], [('echomail handler', H), ('auto-add', H), ('bad-area writer', H)],
     COMMON + 'Guard dataflow from the area/link lookups to the import and forward calls; typestate of refused messages.')

prop('A07', 'Accepted echomail reaches exactly the links entitled to it',
     'Each accepted echomail message that is not a rescan answer is written once for every link of its area, except the system the packet came from, passive nodes, write-only links and (when seen-by checking is configured) systems already listed in the seen-by lines of this very message, and for nobody else. '
     'It is also stored in the message base of the area unless it was exported from there, the area has none, or a filter killed or twitted it; a copy or import that fails makes processing fail.',
     ['inputs', 'configurations'], 'every message, seen-by list, link set and flag combination',
     'tests use a single link; flag combinations and seen-by contents are not varied',
     [H, 'src/shared/node4d.c'], [('distribution loop of the echomail handler', H), ('seen-by lookup', H)],
     COMMON + 'Every forward call must carry all guards, every loop iteration that does not forward must carry a reason, success must imply import or a reason.')

prop('A08', 'Received duplicates are neither imported nor forwarded',
     'When duplicate checking is configured, every received echomail message (outside areas exempted from it) is checked before it is imported or forwarded, and a duplicate is neither; it is written to the bad area if and only if that is configured, and the toss goes on. '
     'A message counts as a duplicate only if its message id and area equal a remembered entry, and a new message with an id is always remembered; every remembered entry is compared, and all of them (up to the configured number) survive the end of the run. '
     'The stored duplicate history is replaced only by a completely written new one.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of messages and every failing write',
     'no test tosses a message twice or makes the duplicate file unwritable',
     [H, 'src/crashmail/dupe.c'], [('duplicate check and history', 'src/crashmail/dupe.c'), ('duplicate decision', H)],
     COMMON + 'Typestate over the handler and over the duplicate database functions. The hash/CRC values themselves are not decided.')

prop('A09', 'Netmail is imported, routed or bounced only as configured',
     'Netmail killed or twitted by a filter is not imported, killed or bounced netmail is not routed; mail for an own address, for an address of a netmail area, or (with routing switched off) any mail is not routed while there is a netmail area, and only such mail is imported, only into a netmail area. '
     'Mail matching a bounce pattern whose destination is not in the nodelist, mail for an unknown point of an own address (if that is configured), and received file-attaches to destinations not permitted for them are not routed. '
     'Routed mail keeps only the attributes meant for transit, and received mail loses crash and hold.',
     ['inputs', 'configurations'], 'every netmail and every routing, import, bounce and file-attach configuration',
     'tests route a couple of plain netmails with one configuration',
     [H], [('netmail handler', H)],
     COMMON + 'Guard dataflow from the configuration tests to the import and route calls. Which route pattern matches is not decided.')

prop('A10', 'Generated mail is marked and never answered or bounced',
     'Every message CrashMail itself creates (bounces, receipts, audit answers, AreaFix replies, requests to other AreaFixes, removal notices) is marked as generated before it is handled, keeps that mark, and does not itself ask for a receipt or audit. '
     'Generated mail is never bounced and never treated as an AreaFix request. '
     'Receipts and audit answers are sent only for netmail that asks for them and only when configured; bounces, receipts and audit answers are addressed to the system and the name the message came from.',
     ['inputs', 'histories'], 'every message and every chain of automatic answers between systems',
     'mail loops need two systems answering each other; the tests run one',
     [H, 'src/crashmail/areafix.c', 'src/shared/node4d.c'], [('bounce, receipt and audit answers', H), ('AreaFix replies', 'src/crashmail/areafix.c')],
     COMMON + 'Typestate of every message between its creation and its hand-over; guard dataflow of the answer calls.')

prop('A24', 'Forwarded echomail names the own system and its receivers in SEEN-BY and PATH',
     'Every copy of echomail sent to a link names the own system in SEEN-BY (unless the own address of the area is a point) and at the end of PATH (unless it is a point and 3D paths are not configured); configured seen-by removals never take the own address out again. '
     'For tossed and exported mail SEEN-BY also names every link of the area that is in the zone of the area address, not a point, not passive and not write-only, and no other link is added; a seen-by list that came from another zone is discarded before anything is added; a rescanned message names its destination (unless that is a point). '
     'A link of another zone or one configured for tiny seen-bys gets a SEEN-BY with just itself and the own system instead of the full one; only links configured without seen-by get none, and every copy carries PATH.',
     ['inputs', 'configurations'], 'every message, seen-by list, link set and flag combination',
     'tests look at one forwarded message; loops between systems appear only with several systems, zones and points',
     [H, P, 'src/crashmail/memmessage.c'], [('echomail and rescan handlers', H), ('echomail writer', P), ('seen-by and path lists', 'src/crashmail/memmessage.c')],
     COMMON + 'Typestate of the two lists of a message from its acceptance to the packet writer; contracts of the list primitives. The textual layout of the lines is not decided.')

AFX = 'src/crashmail/areafix.c'
prop('A11', 'AreaFix obeys only the configured node that gives its password',
     'AreaFix changes the settings or links of a node, removes areas, requests areas from other systems, rescans areas or sends lists, help and configuration information only for the configured node whose full address equals the origin of the request and whose AreaFix password equals the first word of its subject; apart from the removal of a whole area only that node is affected.',
     ['inputs', 'configurations'], 'every request, origin, subject and node configuration',
     'no test sends an AreaFix request with a wrong password or from another address',
     [AFX, 'src/shared/node4d.c'], [('AreaFix request handler', AFX), ('address comparison', 'src/shared/node4d.c')],
     COMMON + 'Guard dataflow: each effect of a request must lie behind the address and the password test, and must name the node they were made for. That the comparison of passwords ignores case is taken as intended.')

prop('A12', 'AreaFix commands respect the permissions of node and area',
     'AreaFix links a node only to an echomail area its request names, whose group is in the groups or read-only groups of the node, from which it is not banned and to which it is not linked yet; the link is read-only if the group is a read-only group of the node or the area is read-only by default. '
     'It removes only the own link of the node, only from an area the request names and not from a mandatory area (unless the node is its feed); '
     'an area disappears only after such a removal: when the feed left and that is configured to remove the area, or when automatic removal is configured, the area has no message base and no link but the feed is left. '
     'Areas are rescanned only when that is allowed and only for a linked node; '
     'areas are requested from other systems and created only for nodes with that permission, only when unknown here, and only from area lists that may be forwarded and whose group the node has; '
     'lists name only echomail areas the node is linked to or whose group it has (a query only linked ones, the list of unlinked areas only others), and areas of other systems only under the same conditions as requests.',
     ['inputs', 'configurations'], 'every request and every group, ban, flag and area-list configuration',
     'no test sends AreaFix requests for areas with groups, bans, mandatory or read-only flags, or area lists',
     [AFX], [('AreaFix request handler', AFX), ('group check', AFX), ('lists of areas', AFX)],
     COMMON + 'Guard dataflow from the permission tests to the list operations; contracts of the group check and of the choice of the uplink. Pattern matching itself is not decided.')

prop('A13', 'Configuration changes are saved completely, and nothing else is lost',
     'Every change AreaFix or automatic area creation makes to a node, an area, its links or the list of areas is marked, and a successful run that changed the configuration writes it back; '
     'the configuration file is replaced only by a completely written and closed new file; if anything fails, the old file keeps (or gets back) its name and the update is reported as failed. '
     'Lines are dropped from the old file only if they belong to a rewritten or removed entry, every changed entry is written, entries that were not changed are copied as they are, and a change mark is cleared only when its entry is written. '
     'Each setting of a node or area that the reader understands (switches, groups, passwords, links with their !, @ and % marks, banned nodes, limits) is written again under its own keyword exactly when it is set, in the order in which it is read.',
     ['inputs', 'crash_points', 'histories'], 'every sequence of configuration changes, every configuration and every failing write, close or rename',
     'no test changes the configuration at run time, and none makes a write or rename fail',
     ['src/crashmail/config.c', AFX, H, 'src/crashmail/crashmail.c'], [('update of the configuration file', 'src/crashmail/config.c'), ('reader of the configuration file', 'src/crashmail/config.c'), ('AreaFix commands', AFX), ('creation of areas', H)],
     COMMON + 'Typestate of the configuration file and of change marks, line-by-line typestate of the rewriting loop, and an agreement analysis between reader and writers over keyword, switch, flag and field.')

prop('A15', 'Outgoing mail is filed in the outbound without loss',
     'A finished outgoing packet is deleted only after its packer succeeded or after all of it was written to (appended behind the mail already in, or forming) the outbound packet of its node and that file was closed successfully; an outbound packet is created anew only when there is none, and packets under construction get numbers that no other packet of the run had. '
     'The bundle or packet that has the mail is then entered completely in the flow file of the node, behind the entries already there, or recorded in an orphan file, and an orphan record is deleted only after its file was entered; '
     'in every other case the packet keeps its name (or gets it back), failure is reported and the packet is kept for the next run; a packet that can neither be filed nor kept makes the run fail. '
     'The outbound of a node is changed only while an own busy file exists, which is created only if there is none, removed on every path, and never removed when it belongs to another program; only empty bundles are deleted, and files are moved only by renaming or complete copying.',
     ['crash_points', 'fault_sequences', 'schedules'], 'every packet, every failing rename, packer, read of a directory, write or close, every busy node',
     'no test packs mail for a busy node or makes a rename, packer, write or close fail',
     ['src/crashmail/outbound.c', 'src/crashmail/misc.c'], [('packing of a packet', 'src/crashmail/outbound.c'), ('flow and orphan files', 'src/crashmail/outbound.c'), ('busy files', 'src/crashmail/outbound.c'), ('moving and copying of files', 'src/crashmail/misc.c')],
     COMMON + 'Typestate of the packet (where the mail is), of the busy file and of the flow entry over all paths. What external packers do and the names of bundles are not decided.')

prop('A17', 'Text and lists never overflow the fixed-size buffers they are put in',
     'In crashmail and its tools, text that is too long for the place it is put in (a local or global buffer, or an array that is a member of a structure) is cut off or refused and never written behind the end, whether it comes from packets, message bases, configuration files, command lines, nodelists, AreaFix requests or the dupe file; buffers whose text is read later are terminated. '
     'Array indexes at which such arrays are written stay inside them. '
     'The blocks of seen-by and path lists are filled only up to their size.',
     ['inputs', 'configurations'], 'every length and content of every text field, line, name and list',
     'overflows need over-long or damaged fields that no test contains, and often go unnoticed without a sanitizer',
     ['src/crashmail', 'src/shared', 'src/tools', 'src/oslib_linux', 'src/jamlib', 'src/cmnllib'], [('bounded copies', 'src/shared/mystrncpy.c'), ('word reader', 'src/shared/jbstrcpy.c'), ('text blocks and lists', 'src/crashmail/memmessage.c')],
     COMMON + 'Interval analysis of string lengths, indexes and counts against declared array sizes, interprocedural through parameters and members. Writes into allocated memory of computed size are not decided; five operations whose bounds need facts outside the analysis are listed as assumptions in the rule.',
     technique='interval dataflow of string lengths and indexes on the LLVM IR of the working tree')

prop('A14', 'No message is dropped on its way without a reason',
     'Every message of an accepted packet is handed to message handling exactly once, as netmail or echomail according to its area, and the result of handling it counts. '
     'Netmail that was handled successfully was imported, written to a packet, bounced or stored as bad, unless a filter killed it (or marked it as twit and it was to be imported), AreaFix answered it (and such requests are not to be imported), its area has no message base, or it is empty and empty netmail is not to be imported. '
     'Routed netmail goes to its destination or along the first route statement whose pattern matches its destination, with the own address of that statement; a receipt or audit answer that is asked for and configured is sent; '
     'a message counts as stored as bad only if it was stored in the bad area, or there is none (or none with a message base).',
     ['inputs', 'configurations'], 'every packet, every message and every configuration',
     'each way a message can take needs its own combination of flags, addresses and configuration; the tests use one or two',
     [P, H], [('packet reader', P), ('message dispatch and netmail handler', H), ('bad area', H)],
     COMMON + 'Typestate of the message (where it is) in the packet reader, the dispatcher, the netmail handler and the bad-area writer. Echomail is covered by A06 to A08. Whether the text of a netmail is empty is not decided.')

prop('A16', 'Local messages are exported once, and only after success count as sent',
     'Scanning looks at every message number of an area that is not below its highwater mark and sends exactly the messages that are local, not yet sent and not deleted; rescanning sends the newest messages asked for (all when no maximum is given) and changes nothing in the message base. '
     'Only netmail and echomail areas that have a message base are scanned, and netmail areas not when NOEXPORTNETMAIL is set (except when one area is scanned by name); '
     'a message is handed on with the name of its area (netmail without one) and marked as exported or rescanned. '
     'When it was handled successfully it is marked as sent in the file or header it came from, or deleted if it is netmail with KILLSENT and that is allowed; when handling failed it is neither marked nor deleted, the highwater mark does not pass it, and failure of the area and of the run is reported; '
     'highwater marks are stored only at the end of a run in which every message was handled and every packet filed.',
     ['inputs', 'configurations', 'fault_sequences'], 'every message base, every combination of message flags, every failure while handling or filing',
     'no test exports messages with a failing handler, interrupted, or with highwater marks',
     ['src/crashmail/scan.c', 'src/crashmail/mb_msg.c', 'src/crashmail/mb_jam.c', 'src/crashmail/crashmail.c'],
     [('scanning', 'src/crashmail/scan.c'), ('MSG export', 'src/crashmail/mb_msg.c'), ('JAM export', 'src/crashmail/mb_jam.c'), ('end of a run', 'src/crashmail/crashmail.c')],
     COMMON + 'Typestate of one message in the export functions, linear forms of the loop bounds, typestate of the run. Whether the mark really reaches the disk is left to A03. Known finding: the mark is set before the copies are filed, so a later failure of the run loses the message.')

prop('A18', 'Only one run works with a configuration at a time',
     'Nothing but the lock file is touched before a run has created the lock file of its configuration, which succeeds for only one of several programs that try at the same moment. '
     'The lock is removed by the run that holds it, at its end and on every way out, and only after everything (dupe database included) was written; the lock of another run is removed only on the explicit request to unlock. '
     'A file is emptied when it is opened only where a new file is asked for; opening for reading, for updating, and creating a lock never destroy what is there.',
     ['schedules', 'fault_sequences', 'inputs'], 'every interleaving of several programs, every failure before and while locked',
     'tests start one run at a time',
     ['src/crashmail/crashmail.c', 'src/oslib_linux/osfile.c'],
     [('lock file', 'src/crashmail/crashmail.c'), ('main', 'src/crashmail/crashmail.c'), ('file modes', 'src/oslib_linux/osfile.c')],
     COMMON + 'Typestate of the lock over all paths of main, CleanUp and LockConfig, open modes decided per branch. Programs ended from outside leave their lock behind; exclusive creation itself is trusted to the C library.')

prop('A19', 'Every run is opened and closed completely and does what was asked for',
     'Mail is handled only with a configuration that was read and checked successfully, every command line keyword does its own work on its own argument, and security checks are switched off only by the keyword for that. '
     'Every run that was opened is closed exactly once, a run that cannot be opened completely (nodelist, packet directory, message bases) is not started and leaves the nodelist closed, and messages are handled only inside a run. '
     'At its end packets are closed first and filed only if nothing failed, and only after that inbound files are deleted and statistics and configuration written.',
     ['fault_sequences', 'inputs'], 'every command line, every failure while opening or in a run',
     'tests never make opening or closing a run fail',
     ['src/crashmail/crashmail.c', 'src/crashmail/toss.c', 'src/crashmail/scan.c'],
     [('main', 'src/crashmail/crashmail.c'), ('opening and closing of runs', 'src/crashmail/crashmail.c')],
     COMMON + 'Typestate of the run in every function that opens or closes one, in the functions that do so, and in main. Whether two keywords given together are both honoured is not decided.')

prop('A20', 'Nothing is done through a null pointer or with released memory and files',
     'In crashmail and its tools, the result of an allocation, of opening a file or directory, of a search in a list (own addresses, routes, nodes, areas, packers) or in a string, and a member that may be absent (the message base of a pass-through area, the packer of a node, the nodelist) is followed or handed to something that follows it only where it is known to be there; so running out of memory, a missing file or an unknown name never makes a program crash. '
     'Areas, routes and links always get an address or node that exists. '
     'Within a function, memory that was released and files that were closed are not read, written, returned, released or closed again.',
     ['inputs', 'fault_sequences', 'configurations'], 'every failing allocation or open, every missing route, node, area, packer or message base, on every path of every function',
     'tests never run out of memory and their configurations define everything that is looked up',
     ['src/crashmail', 'src/shared', 'src/tools', 'src/oslib_linux', 'src/jamlib', 'src/cmnllib'], [('message handlers', H), ('AreaFix', AFX), ('reader of the configuration file', 'src/crashmail/config.c'), ('lists', 'src/shared/jblist.c')],
     COMMON + 'Null and released pointers are followed through every function; which functions may return null, follow a parameter or release it is computed bottom-up. Parameters are taken as not null unless tested; list elements in use are taken as present; use of one object under two names is not seen. Two lookups that cannot fail for reasons outside their function are listed as assumptions in the rule.')

prop('A21', 'Headers and control lines hold every part of a message in its place',
     'A packet header and message header that is written holds each part of the addresses of sender and receiver, the type, password, attributes and cost in the place the packet format gives it, with date, receiver, sender and subject following in this order, and headers that are read are understood the same way; this holds for tossed mail and for packets made by CrashWrite from its arguments. '
     'What is stored in a *.msg or JAM message base as sender, receiver, subject, date, addresses, attributes, cost and control lines is put in the field of the format for it and comes back from that field. '
     'The lines INTL, FMPT and TOPT of netmail are written whenever the zone or point says something, name receiver and sender in their places, and change exactly these parts of the addresses when they are read.',
     ['inputs', 'configurations'], 'every packet, message and pair of addresses, with and without points, zones and the old header forms',
     'tests toss mail between nodes of one zone and net without points, where a mistaken part has the same value',
     ['src/crashmail/pkt.c', 'src/crashmail/memmessage.c', 'src/crashmail/misc.c', 'src/crashmail/mb_msg.c', 'src/crashmail/mb_jam.c', 'src/jamlib', 'src/tools/crashwrite.c'],
     [('packets', 'src/crashmail/pkt.c'), ('control lines', 'src/crashmail/memmessage.c'), ('*.msg', 'src/crashmail/mb_msg.c'), ('JAM', 'src/crashmail/mb_jam.c'), ('CrashWrite', 'src/tools/crashwrite.c')],
     COMMON + 'For every place of a header the analysis follows which value was last put there (a part of an address, a string, a word of another header) and compares it with a table of the format when the header is written or the message is handled. Copies of strings are taken as complete (A17 decides their bounds); what a number or string means after the copy is not judged.')

prop('A22', 'CrashMaint deletes only expired messages, and packing loses none',
     'CrashMaint deletes or marks as deleted a message of an area only if maintenance was asked for and, going from the lowest number up, more messages than KEEPNUM are left or the message is older than KEEPDAYS and not dated in the future; these settings belong to the area they follow, and only areas that match the pattern are touched. '
     'Packing a *.msg area renames messages only to lower free numbers, stops at the first rename that fails and moves the highwater mark with the messages. '
     'Packing a JAM area puts the new files in place of the old ones only after every message that is not deleted was read and written completely with header, subfields and text, keeps the number of messages it records right, and reports failure unless all files were replaced.',
     ['inputs', 'configurations', 'fault_sequences'], 'every area, setting, message date and number, and every call that can fail',
     'no test runs CrashMaint; the cases that matter are failures in the middle of packing, areas without settings of their own and unusual dates',
     ['src/tools/crashmaint.c'],
     [('*.msg', 'src/tools/crashmaint.c'), ('JAM', 'src/tools/crashmaint.c'), ('settings', 'src/tools/crashmaint.c')],
     COMMON + 'Deletions, renames and header changes are followed with the comparisons made before them; the counter that is compared with KEEPNUM must start from the number of messages and fall with each deletion (decided on the loops). The failure of the deletion itself is not judged, and neither is a crash of the machine between two renames.')

prop('A23', 'Outgoing mail is complete and goes to the system and flavour it is meant for',
     'Every outgoing message is written to a packet whose destination, own address (the one configured for packets to that node, if any) and flavour are those of that copy: echomail header and addresses, area line, the whole text, seen-by, path and terminator, in this order, and nothing of it goes to another packet; a packet ends with its terminator, and full packets are finished before a new one is begun. '
     'Hold, crash, direct and normal netmail (and attached files) get the flavour their attributes ask for, changed only by CHANGE entries for that destination and flavour; netmail is sent with the echomail only for nodes configured so. '
     'The name of a finished packet carries flavour, zone, net, node and point of its receiver, and filing it takes the same parts out again: it ends up in the outbound directory, the outbound packet or bundle and the flow file of exactly this system and flavour, also by way of an orphan file, and different systems (of one domain) never share a name.',
     ['inputs', 'configurations'], 'every message, node setting, flavour and address, and every way through writing and filing',
     'tests send one or two messages to one node with the default flavour; points, zones, several own addresses, changed flavours and full packets are not combined',
     ['src/crashmail/pkt.c', 'src/crashmail/outbound.c', 'src/crashmail/handle.c', 'src/crashmail/misc.c'],
     [('packets', 'src/crashmail/pkt.c'), ('outbound', 'src/crashmail/outbound.c'), ('flavour', 'src/crashmail/handle.c')],
     COMMON + 'What is put together in text buffers is followed as a sequence of literal text and formatted values, so names and lines are compared by what they contain and not by how they are built. Other domains with several zones are left out; what the patterns of CHANGE entries match is decided in A25.')

prop('A25', 'Addresses and patterns are read, matched and expanded as the manual says',
     'An address read from text has the numbers before and after the separators in their parts, with missing parts from the address it is relative to, is refused if it holds anything else, and printed addresses name the parts in the same order. '
     'A node pattern matches an address exactly if every part its kind has (a node, region, net, hub or zone) matches, any zone (except that of a zone pattern) matching an address without zone, a question mark standing for one character and an asterisk for the rest, the same as in names of areas; regions and hubs are those the nodelist has for the node. '
     'A destination pattern stands for the parts of the pattern without wildcard and the parts of the address for the others, and its keywords for the coordinator of the zone, region or net, the hub or the boss node of the address.',
     ['inputs', 'configurations'], 'every text, pattern and address, with wildcards, missing parts and points, with and without an entry in the nodelist',
     'tests use one or two patterns; kinds other than a plain node, wildcards within a part and unlisted nodes do not occur',
     ['src/shared/node4d.c', 'src/crashmail/node4dpat.c', 'src/oslib_linux/ospattern.c'],
     [('kinds', 'src/crashmail/node4dpat.c'), ('characters', 'src/oslib_linux/ospattern.c'), ('reading', 'src/shared/node4d.c')],
     COMMON + 'The character loops are decided one position at a time: the analysis shows for one position, whatever came before, what happens for each class of the character of the pattern and of the text, and that both positions go on together. Numbers that do not fit their part and patterns longer than their part (A17 has the bounds) are not judged.')

prop('A26', 'A node is found in the nodelist exactly when it is listed',
     'CrashList enters every line of a nodelist that lists a zone, region, host, hub, node or point in the index exactly once, with the zone, region, net, hub, node and point that follow from its keyword and the lines before it and with the place where the line begins, between the name of the list and an end mark, and it indexes the newest file of the list that was named. '
     'A lookup compares zone, net, node and point of every entry with the ones asked for, finds an entry only if all are equal and it is no end mark, and gives up only at the end of the index; region, hub and line that it returns are those of the entry that was found.',
     ['inputs', 'configurations'], 'every nodelist, list of nodelists and address',
     'tests look up one node and one point of two small lists, none of them behind a hub',
     ['src/tools/crashlist.c', 'src/cmnllib/cmnllib.c', 'src/crashmail/nl_cmnl.c', 'src/tools/crashgetnode.c'],
     [('index', 'src/tools/crashlist.c'), ('lookup', 'src/cmnllib/cmnllib.c'), ('answers', 'src/crashmail/nl_cmnl.c')],
     COMMON + 'The layout in which entries are written is taken from the program that writes the index, and the program that reads it is compared with it. Nodelists in V7+ format, numbers above 65535 and a nodelist that was changed after it was indexed are left out.')

prop('A27', 'Every line of the configuration means what the manual says',
     'Each keyword of the configuration file changes its own setting and no other, from the words of its own line, with the switches and marks of that line, on the object it belongs to: the area, node, own address or filter that was configured last. '
     'A line that lacks a word, has a word that is not a number, address, pattern or switch where one is needed, refers to something that is not configured, or begins with an unknown keyword makes reading the configuration fail, and no other line does.',
     ['configurations', 'inputs'], 'every configuration file',
     'tests use one small configuration with a fraction of the keywords and no marked links, defaults or switches',
     ['src/crashmail/config.c', 'src/crashmail/config.h'],
     [('reading the configuration', 'src/crashmail/config.c')],
     COMMON + 'The table of keywords, with the words they take and the settings they make, is written down in the rule. Not judged: how long a word may be before it is cut off, the settings without a line, and the checks of the configuration as a whole after it was read.')

prop('A28', 'No message takes anything from another or takes its place',
     'Every message of a packet begins empty in all its parts (addresses, names, subject, identification, attributes, marks, text, seen-by, path), keeps what was read of it, and is read to its own end, whatever messages came before it. '
     'Every message taken out of a message base is a new, empty one that is handed on once and read to its own end. '
     'A message is stored in a *.msg area only under a number that no other message has at that moment.',
     ['inputs', 'histories'], 'every sequence of messages in packets and message bases',
     'tests toss packets whose messages all have the same parts',
     ['src/crashmail/memmessage.c', 'src/crashmail/pkt.c', 'src/crashmail/mb_msg.c', 'src/crashmail/mb_jam.c', 'src/shared/jblist.c'],
     [('emptying a message', 'src/crashmail/memmessage.c'), ('reading messages', 'src/crashmail/pkt.c'), ('message numbers', 'src/crashmail/mb_msg.c')],
     COMMON + 'The message number, which is set for every exported message and used nowhere else, is not part of what has to be empty.')

prop('A29', 'AreaFix does what a permitted request asks for, and answers it',
     'A system that is allowed to is linked to each area it asks for and detached from each it does not want, an unknown area it may request is asked for at the uplink that has it, and pausing, resuming, passwords, compression and rescans change exactly what was named; nothing else is linked, detached, changed or rescanned. '
     'An area is removed only when its feed or its last reader leaves and the configuration says so; then the systems linked to it, or its feed, are told. '
     'Every line gets an answer, every list or text that was asked for is sent, and the answer goes to the sender of the request.',
     ['inputs', 'histories'], 'every sequence of request lines from every configured system',
     'tests send two or three AreaFix commands from one node',
     ['src/crashmail/areafix.c'],
     [('request lines', 'src/crashmail/areafix.c'), ('area removal', 'src/crashmail/areafix.c')],
     COMMON + 'Who may ask for what is decided by A11 and A12; the wording of the answers and the contents of the lists are not judged.')

na('N02', 'The text of a message leaves the system as it came',
   'Apart from the control lines that are added, moved or removed on purpose, the text, names, subject and date of a message that is imported, exported or forwarded are the ones that were received.',
   ['inputs'], 'every message text', 'tests compare one or two messages',
   ['src/crashmail/memmessage.c', 'src/crashmail/mb_jam.c', 'src/crashmail/mb_msg.c'], [('text blocks', 'src/crashmail/memmessage.c')],
   'Byte equality of output and input over loops that split, buffer and rejoin text of unbounded length is a functional-correctness claim about runtime contents. Static rules decide that no text is written out of bounds (A17), that no failure is ignored (A02, A03) and that each string is read completely (A04), not that the bytes are the same.')

na('N03', 'Dates and counters keep their value in every conversion',
   'A date that is converted between the text format, the format of the message base and seconds denotes the same moment, and the statistics of areas and nodes equal the number of messages handled.',
   ['inputs', 'histories'], 'every date and every history of runs', 'tests use the current date and short histories',
   ['src/shared/mystrncpy.c', 'src/crashmail/misc.c', 'src/crashmail/stats.c'], [('date conversion', 'src/crashmail/misc.c'), ('statistics', 'src/crashmail/stats.c')],
   'Numeric equality of calendar arithmetic, time zones and sums over a history are runtime quantities; an interval or dataflow analysis cannot relate them to the intended value.')

na('N04', 'Replies in a message base are linked to the message they answer',
   'After a run with linking switched on, each message of an area is linked as a reply to the message with the identification it answers, and to no other.',
   ['inputs', 'histories'], 'every set of messages in an area', 'no test links messages',
   ['src/crashmail/mb_jam.c'], [('linking', 'src/crashmail/mb_jam.c')],
   'The links are the result of comparing checksums of all messages in arrays of computed size; whether the resulting graph is right depends on runtime contents and on the absence of checksum collisions.')
