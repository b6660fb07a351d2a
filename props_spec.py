# -*- coding: utf-8 -*-
""" Single source of truth for properties.jsonl and MANIFEST.json: run  `python3 props_spec.py`  to regenerate both. """
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []

PDU = 'gsmmodem/pdu.py'
SER = 'gsmmodem/serial_comms.py'
MOD = 'gsmmodem/modem.py'
EXC = 'gsmmodem/exceptions.py'
UTL = 'gsmmodem/util.py'
TRIE = 'tools/gsmtermlib/trie.py'
TERM = 'tools/gsmtermlib/terminal.py'


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration', state=None,
         observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, observe=observe, hook=hook))


# ---------------------------------------------------------------- PDU codec
prop('C01', 'SMS-SUBMIT encoding never loses, adds or alters message text',
     'For every text whose characters are in the Basic Multilingual Plane, decoding the user data of the PDUs returned '
     'for it by an independent GSM 03.40 decoder and joining them in part order gives exactly that text, whatever its '
     'length and mix of GSM-7 basic, GSM-7 extension and other characters (up to 255 parts). A text that can be encoded '
     'in the GSM-7 alphabet is sent as GSM-7 and any other as UCS2. A text outside that domain is refused with '
     'ValueError, never sent damaged.',
     ['inputs'],
     'all texts (any length 0..255 parts, any BMP characters, extension characters at every position relative to a part '
     'boundary), with every combination of the other options',
     'The tests encode a dozen fixed short texts and two fixed concatenated ones; lengths next to the split points '
     '(153/160/306 septets, 67/70/134 code units) and extension characters at a split point are never tried.',
     [PDU], [dict(name='encodeSmsSubmitPdu: alphabet choice and splitting into parts', where=PDU + ' encodeSmsSubmitPdu'),
             dict(name='encodeGsm7 / packSeptets / encodeUcs2', where=PDU)],
     'property-based testing: differential against an independent GSM 03.40 decoder, plus a boundary-length sweep',
     'Generated texts biased to split boundaries, and an exhaustive sweep of lengths per alphabet; trusts the reference '
     'decoder vf/refpdu.py.')
prop('C02', 'SMS-SUBMIT PDUs are well formed and correctly numbered',
     'Every PDU produced parses completely under GSM 03.40 with nothing left over: at most 140 octets of user data, a '
     'user data length that is exact (in septets for GSM-7, octets for UCS2), and a reported TPDU length equal to the '
     'octets after the SMSC field. A text that fits in one PDU (160 septets or 70 UCS2 code units) gets exactly one PDU '
     'without a user data header; otherwise every part has a concatenation header with the same reference, the same total '
     'equal to the number of PDUs, and numbers 1..n in order. No extension character is cut in two by a part boundary.',
     ['inputs'],
     'all texts up to 255 parts, destinations, SMSC numbers, references 0..255, validity kinds and flags',
     'Tests compare whole hex strings for a few fixed messages; the length arithmetic for other lengths is never executed.',
     [PDU], [dict(name='user data length, UDH flag and concatenation header construction', where=PDU + ' encodeSmsSubmitPdu'),
             dict(name='Concatenation.encode, Pdu.tpduLength', where=PDU)],
     'property-based testing: strict structural parser as validity predicate',
     'Same generator as C01; the strict parser of vf/refpdu.py rejects any inconsistent length, number or fill.')
prop('C03', 'SMS-SUBMIT carries every requested option and nothing else',
     'For every combination of destination, message reference, validity period (none, relative or absolute), SMSC number, '
     'status-report request, reject-duplicates and flash flags, each PDU carries exactly those values in the fields of '
     'GSM 03.40: destination digits with the correct type of number, TP-MR, TP-VP in the announced format, TP-SRR, TP-RD, '
     'protocol identifier 0 and a data coding of class 0 exactly for flash messages. The relative validity carried '
     'is the largest encodable one not above the request (within the encodable range of 5 minutes to 63 weeks), absolute '
     'validity is carried to the second with its time zone, and a validity of any other type is refused with TypeError.',
     ['inputs', 'configurations'],
     'all option combinations, numbers of 1..20 digits with or without +, alphanumeric addresses, timedeltas up to 441 '
     'days, datetimes with every quarter-hour offset within +-19:45',
     'Tests pin four or five hex strings; the option space and its interactions (e.g. flash with UCS2, absolute validity '
     'with negative offsets, SMSC with odd digit counts) are not covered.',
     [PDU], [dict(name='first octet, address, DCS and validity encoding', where=PDU + ' encodeSmsSubmitPdu, _encodeAddressField, _encodeRelativeValidityPeriod, _encodeTimestamp')],
     'property-based testing: field-by-field differential against an independent parser',
     'Whole option space generated; validity oracle is the GSM 03.40 table written independently.')
prop('C04', 'Decoding an SMS-DELIVER PDU returns exactly what was sent',
     'For every well-formed SMS-DELIVER PDU (GSM-7, 8-bit or UCS2; with or without a user data header of any length; any '
     'SMSC, any originating address including alphanumeric and empty ones; any time stamp and quarter-hour time zone), decoding '
     'returns the type, SMSC, number, protocol identifier, aware time stamp, header elements and text that the PDU '
     'encodes, and the TPDU length. This holds for every text length, including texts whose final character has code 0 '
     '(@) or that end on a septet/octet boundary, and for PDUs given as hex in either case or as a bytearray.',
     ['inputs'],
     'all well-formed uncompressed SMS-DELIVER PDUs of all data coding groups, up to 140 octets of user data',
     'Tests decode about ten captured PDUs; alignment-dependent cases (length mod 8, header length mod 7, trailing @) are '
     'not among them.',
     [PDU], [dict(name='decodeSmsPdu SMS-DELIVER branch', where=PDU + ' decodeSmsPdu'),
             dict(name='_decodeUserData, unpackSeptets, decodeGsm7, decodeUcs2', where=PDU)],
     'property-based testing: differential against an independent GSM 03.40 encoder, plus an exhaustive alignment sweep',
     'PDUs are produced by vf/refpdu.py; sweep over all text lengths 0..160 x header lengths for pinned characters.')
prop('C05', 'Decoding status-report and submit PDUs returns exactly their fields',
     'For every well-formed SMS-STATUS-REPORT PDU, decoding returns its message reference, recipient, SMSC, send time, '
     'discharge time and status; for every well-formed SMS-SUBMIT PDU it returns reference, destination, SMSC, validity '
     '(relative or enhanced as the period of GSM 03.40, absolute as an aware time), header elements and text. In particular every PDU '
     'produced by the submit encoder decodes back to the number, text part, reference, validity and SMSC it was made from.',
     ['inputs'],
     'all well-formed status reports (any status octet, any extra flag bits) and submit PDUs',
     'Two or three captured PDUs are decoded by the tests.',
     [PDU], [dict(name='decodeSmsPdu SMS-SUBMIT / SMS-STATUS-REPORT branches', where=PDU + ' decodeSmsPdu'),
             dict(name='_decodeRelativeValidityPeriod', where=PDU)],
     'property-based testing: differential against an independent encoder and encode/decode round trip',
     'All 256 status octets and relative validity octets are swept; the rest is generated.')
prop('C06', 'The PDU decoder answers any input with a message or EncodingError',
     'Given any text or bytes whatsoever (truncated, corrupted, random, not hex, empty, too short or too long), decoding a '
     'PDU either returns a dictionary describing one of the three message types or raises EncodingError; no other '
     'exception escapes and the call always ends. If decoding succeeds the result has all the fields of its message type.',
     ['inputs'],
     'all strings and byte strings: every truncation and single-octet corruption of valid PDUs, and arbitrary junk',
     'Tests try one non-hex string and one PDU with an unknown message type.',
     [PDU], [dict(name='input validation in decodeSmsPdu', where=PDU + ' decodeSmsPdu')],
     'structure-aware mutation fuzzing (truncation, octet substitution, splicing) with an exception-contract oracle',
     'Every truncation point of generated valid PDUs plus random mutations and junk.')
prop('C07', 'GSM-7 and UCS2 text codecs are exact inverses and reject the rest',
     'Every string of GSM 03.38 characters encodes to the codes of the standard tables (extension characters as an escape '
     'pair) and decodes back to itself, and every sequence of valid codes decodes to the right string. A string with any other '
     'character is refused with ValueError, or has exactly those characters removed when discarding is requested. Every '
     'BMP string round-trips through the UCS2 codec as big-endian 16-bit units.',
     ['inputs'],
     'all strings over the whole of Unicode, and all code sequences',
     'The tests encode a handful of strings; the tables are never checked code by code and rejection is tried with one character.',
     [PDU], [dict(name='GSM7_BASIC / GSM7_EXTENDED, encodeGsm7, decodeGsm7', where=PDU),
             dict(name='encodeUcs2, decodeUcs2', where=PDU)],
     'property-based testing: round trip and differential against an independently written table; exhaustive over single characters',
     'Single characters are enumerated over the BMP; strings are generated.')
prop('C08', 'Septet packing is exact, and unpacking inverts it',
     'Packing a sequence of 7-bit codes yields the GSM 03.38 bit layout: first code in the low bits, unused high bits of the last octet zero, as many '
     'octets as the bits need, and with p = 1..6 requested pad bits the stream preceded by 7-p zero bits. Unpacking packed codes restores them (only a last code 0 that exactly fills the '
     'last octet cannot be told from padding and may be left out). Unpacking from an iterator with a limit of n octets reads n octets and no more.',
     ['inputs'],
     'all septet sequences of length 0..200, fill bits 0..6',
     'Tests pack a few fixed strings, none of them with a trailing zero code at a multiple-of-8 boundary.',
     [PDU], [dict(name='packSeptets, unpackSeptets', where=PDU)],
     'property-based testing: differential against big-integer bit arithmetic; exhaustive over lengths and fill bits',
     'Lengths 0..64 x fill bits 0..6 are enumerated for several patterns; values are generated.')
prop('C09', 'PDU timestamps and validity periods keep instant and time zone',
     'Every timestamp from 1969 to 2068 with a quarter-hour offset within +-19:45 encoded as absolute validity, or received '
     'in a PDU, keeps its year, month, day, hour, minute, second and UTC offset through encoding and decoding, and when the '
     'decoded value is copied, deep-copied or pickled. Every '
     'relative validity octet decodes to the period of GSM 03.40, encoding that period returns an octet of the '
     'same period, and a naive timestamp or a period beyond the encodable range is refused with ValueError.',
     ['inputs'],
     'all date-times 1969..2068 with quarter-hour offsets, all 256 relative validity octets, all timedeltas',
     'Tests use three timestamps and about eight periods.',
     [PDU], [dict(name='_encodeTimestamp/_decodeTimestamp, SmsPduTzInfo', where=PDU),
             dict(name='_encodeRelativeValidityPeriod/_decodeRelativeValidityPeriod', where=PDU)],
     'property-based testing: differential against an independent semi-octet timestamp codec; exhaustive over offsets and validity octets',
     'Exercised only through the public encode/decode entry points; all 159 offsets and 256 octets swept.')
prop('C10', 'User data header elements survive encoding and decoding',
     'The octets of every information element (concatenation with 8- or 16-bit reference, port addressing with 8- or 16-bit ports, or any other identifier with any data) decode to its '
     'identifier, data and meaning; encoding the element gives octets that decode to the same meaning (references or ports above 255 in 16-bit form, others possibly in 8-bit form), and its length is its number of '
     'encoded octets. The header of a decoded message lists its elements in order, each as the class that describes it.',
     ['inputs'],
     'all element identifiers 0..255, data 0..137 octets, sequences of elements',
     'Tests cover one concatenation and one port element.',
     [PDU], [dict(name='InformationElement, Concatenation, PortAddress', where=PDU)],
     'property-based testing: round trip and differential against an independent element codec',
     'Elements generated by construction; identifiers enumerated.')
prop('C11', 'Addresses survive the semi-octet and alphanumeric address codecs',
     'Every destination, originator and SMSC number of 1..20 digits, with or without a leading +, and every alphanumeric '
     'sender of up to 11 GSM-7 characters, is encoded with the type of number and length GSM 03.40 prescribes '
     'and decodes back to the same string, whatever its length parity. Semi-octet encoding and decoding of digit strings are '
     'inverses, and decoding with a limit reads no more octets than the limit.',
     ['inputs'],
     'all digit strings of 1..20 digits, with/without +, alphanumeric names of 1..11 GSM-7 characters',
     'Tests use about ten fixed addresses; odd SMSC lengths and 8-character names ending in @ are not among them.',
     [PDU], [dict(name='_encodeAddressField/_decodeAddressField', where=PDU),
             dict(name='encodeSemiOctets/decodeSemiOctets', where=PDU)],
     'property-based testing: round trip and differential against an independent address codec',
     'Exercised through submit encoding and PDU decoding, and the public semi-octet functions.')

# ---------------------------------------------------------------- serial layer
prop('C12', 'A command gets exactly its response lines, however they arrive',
     'For every response (any non-empty lines followed by a final result line: OK, ERROR, +CME/+CMS ERROR: n or COMMAND NOT '
     'SUPPORT, or by the prompt the caller asked for) and every way of splitting it over time within the time limit, the writing call returns exactly those lines '
     'in order, ending with the final line: no line missing, duplicated, truncated or kept for the next command. A line '
     'that merely begins or ends like a final result, such as message text starting with OK, does not end the response. If no '
     'final line arrives in time, TimeoutException carries exactly the lines received so far (or none), and a '
     'later command still gets its own response.',
     ['inputs', 'schedules', 'histories'],
     'all sequences of commands with responses of 0..8 lines, delays and chunk boundaries at every position, time-outs',
     'The mock serial port of the tests always delivers whole canned responses at once and never near a time-out.',
     [SER, MOD], [dict(name='_readLoop line assembly, _handleLineRead, RESPONSE_TERM', where=SER),
                  dict(name='write: response event and timeout', where=SER)],
     'stateful property-based testing on a simulated serial port with generated chunking under a virtual clock',
     'Deterministic scheduler and virtual time; responses never contain lines equal to a final result line.')
prop('C13', 'Unsolicited lines reach the notification handler once, in order',
     'Every line the modem sends while no command is waiting for a response is passed to the notification handler exactly once and in '
     'order, whatever the chunking; lines that arrive together in one burst arrive in one call, and no line that was '
     'received before a command was issued is ever returned as part of its response. A handler that itself issues commands gets their '
     'responses and does not block reception.',
     ['schedules', 'histories', 'inputs'],
     'all histories of notifications and commands, bursts, chunk boundaries and handler behaviours',
     'Tests deliver one or two fixed notifications.',
     [SER, MOD], [dict(name='_handleLineRead notification buffer', where=SER), dict(name='_handleModemNotification thread hand-off', where=MOD)],
     'stateful property-based testing on a simulated serial port with generated bursts and schedules',
     'Notifications are generated only between commands (the protocol cannot tell them apart inside a response).')
prop('C14', 'Concurrent commands never interleave or receive each other\'s data',
     'When several threads issue commands at the same time, the modem sees the commands one at a time (the next is written only '
     'after the previous one has completed or timed out) and each caller gets the response to its own command. This '
     'holds for every thread interleaving.',
     ['schedules'],
     'all interleavings of 2..5 threads each issuing 1..4 commands (with and without waiting for a response), including time-outs',
     'The tests run a single client thread.',
     [SER], [dict(name='re-entrant transmit lock around write', where=SER + ' write')],
     'schedule exploration: generated interleavings on a deterministic cooperative scheduler with a virtual clock, shrinking the schedule',
     'Preemption at every lock, event, port and (sampled) bytecode/line boundary of the library.')
prop('C15', 'Serial port failure ends the session cleanly, once',
     'If reading from the port fails at any point, the fatal-error callback is called exactly once with that error, the '
     'connection is marked not alive, the port is closed and no thread stays behind; a command waiting at that moment does not hang beyond its '
     'time limit. If writing fails, the caller gets the error and later commands and notifications still work. Closing ends the '
     'reader thread and closes the port at any point of the traffic.',
     ['fault_sequences', 'crash_points'],
     'a read failure after any number of received characters, a write failure at any command, close at any time',
     'One test injects a read failure on an idle port.',
     [SER], [dict(name='SerialException handling in _readLoop', where=SER), dict(name='close', where=SER)],
     'fault injection: a read/write failure at every generated position of generated histories',
     'Faults enumerated over positions for fixed histories and generated for random ones.', level='fault_enumeration')

# ---------------------------------------------------------------- modem
prop('C16', 'Modem error responses become the right exception, or are returned as is',
     'A command answered by ERROR, COMMAND NOT SUPPORT, or +CME/+CMS ERROR: n raises CommandError, CmeError or CmsError '
     'respectively, carrying the type and number n and the command, and specialised for CME 11 (PIN required), 16 (incorrect PIN), 12 '
     '(PUK required) and CMS 330 (SMSC unknown). With error parsing off, the response lines are returned unchanged instead. '
     'A response ending in OK never raises, whatever its other lines contain.',
     ['inputs'],
     'all error kinds, all codes 0..999 except the two busy codes, all preceding response lines, parsing on and off',
     'Tests cover four error kinds with one code each.',
     [MOD, EXC], [dict(name='GsmModem.write error parsing', where=MOD), dict(name='exception specialisation', where=EXC)],
     'property-based testing: table oracle over generated responses; exhaustive over error codes',
     'Codes 0..999 of both kinds enumerated.')
prop('C17', 'Busy errors are retried transparently until a real answer arrives',
     'If the modem answers a command with busy (CME/CMS 515 or 14) any number of times and then with a real response, the '
     'caller gets that real response (or its error) and the modem has received the very same command each time, with '
     'growing pauses in between. Afterwards later commands still work, and pause no more than briefly.',
     ['histories', 'fault_sequences'],
     'all sequences of commands each preceded by 0..5 busy answers of either kind, ending in success or error',
     'Tests cover one or two busy answers on one fixed command.',
     [MOD], [dict(name='515/14 retry with increasing wait', where=MOD + ' GsmModem.write')],
     'stateful property-based testing with a virtual clock',
     'Busy sequences generated per command; virtual clock observes pauses.', level='fault_enumeration')
prop('C18', 'connect() sets up any modem of the supported families',
     'For every capability profile built from the supported modem behaviours (command listing in any form or none; optional '
     '+CFUN, +WIND, +ZPAS, +CNMI, +CLIP, +CRC, +CPMS, ^ commands; echo on or off; missing final OK after +CPIN; any latency below a quarter of a second), connecting '
     'opens the given port at the given rate, succeeds and leaves the modem with echo off, full functionality, PDU mode, its SMSC number as it was, delivery '
     'reports requested and - where supported - message notifications, caller ID (with the extended ring format) and a supported storage selected. '
     'After that, sending and receiving messages and querying the signal work.',
     ['configurations'],
     'the product of the listed optional behaviours and response formats',
     'Tests connect to seven fixed profiles.',
     [MOD], [dict(name='GsmModem.connect', where=MOD), dict(name='supportedCommands', where=MOD)],
     'property-based testing over generated modem profiles with a stateful simulated modem as oracle',
     'Simulated modem vf/device.py; every optional behaviour toggled independently.')
prop('C19', 'The SIM PIN is entered exactly when needed',
     'Connecting to a modem with a locked SIM unlocks it when the right PIN is given, raises PinRequiredError when none is '
     'given, raises IncorrectPinError when it is wrong, and fails with a PIN or PUK error when the SIM asks for its PUK, whether or not the modem accepts other commands before unlocking and whether or '
     'not its PIN query ends with OK. A PIN is sent at most once per connection attempt, and never to an unlocked SIM.',
     ['configurations', 'inputs'],
     'all lock states, PINs, pre-unlock command restrictions and PIN query formats',
     'Tests use fixed PINs on the seven profiles.',
     [MOD], [dict(name='GsmModem._unlockSim and its two call sites', where=MOD)],
     'property-based testing over generated modem profiles with a PIN-attempt counter in the simulated modem',
     'The simulated SIM counts attempts.')
prop('C20', 'sendSms hands the modem exactly the message, and reports its reference',
     'In PDU mode the modem receives, part by part and in order, PDUs that decode to the destination and whole text, each '
     'preceded by its exact length and only sent after the prompt; in text mode it receives the destination and the text. '
     'The returned object has the number, text and the reference the modem gave for the last part, with status ENROUTE. An error at any '
     'part raises CommandError, a missing prompt or confirmation raises TimeoutException, and later messages are unaffected.',
     ['inputs', 'histories', 'fault_sequences'],
     'all sequences of messages in both modes, any text and destination, any reference numbers including wrap-around at 255, '
     'errors and silences at any step',
     'Tests send two short messages on a mock that never checks lengths.',
     [MOD, PDU], [dict(name='GsmModem.sendSms', where=MOD)],
     'stateful property-based testing against a simulated modem that decodes what it receives',
     'The device decodes the submitted PDUs with the independent parser.')
prop('C21', 'Two-step operations are atomic against other threads',
     'While one thread sends a message (command, prompt, text) or a received message is being fetched (select storage, read, '
     'delete), commands of other threads and of notification handlers never come in between in a way that changes the '
     'result: every message goes out intact, and every notified message is read from and deleted from its own storage, '
     'for every thread interleaving.',
     ['schedules'],
     'all interleavings of message sending, notification handling for several storages, and stored-message operations',
     'Tests are single threaded at this level.',
     [MOD, SER], [dict(name='sendSms two-step write', where=MOD + ' sendSms'),
                  dict(name='read + delete of a notified message', where=MOD + ' _handleSmsReceived, _handleSmsStatusReport, _setSmsMemory')],
     'schedule exploration: generated interleavings on a deterministic scheduler against a simulated modem',
     'Preemption at every lock, event, port operation; simulated modem treats anything after a prompt as message text.')
prop('C22', 'Each received SMS is delivered to the callback once, then deleted',
     'For every history of new-message notifications (any storage, any index, any burst, PDU or text mode), the received-message '
     'callback is called exactly once per message with the sender (if there is one), text, time, SMSC and status stored in the modem, and that message - and no other '
     '- is removed from that storage. A failing read does not remove anything, and later messages are still delivered. A reply goes to the sender.',
     ['histories', 'inputs', 'fault_sequences'],
     'all histories of arrivals in several storages, in both modes, with notifications alone or in bursts, read errors',
     'Tests deliver single notifications from a mock that returns canned text.',
     [MOD], [dict(name='_handleSmsReceived', where=MOD), dict(name='readStoredSms, deleteStoredSms', where=MOD)],
     'stateful property-based testing against a model of the modem storage',
     'Messages generated by the independent encoder; storage model compared after each history.')
prop('C23', 'Stored-message operations agree with the modem\'s storage',
     'Listing returns exactly the messages of the requested status and storage, in order, with the right number, text, time and '
     'status, in PDU and text mode; reading returns the one at the index; deleting removes exactly the requested ones; '
     'processing calls the callback once for each (unread) received message, even if it raises for some, and removes exactly those. Garbage lines and undecodable messages in a '
     'listing neither hide nor delete other messages (except that listing all messages with deletion empties the storage), a command the modem refuses or an '
     'unknown storage raises CommandError, an invalid delete flag ValueError and an invalid status an error, and none of these changes any message.',
     ['histories', 'inputs'],
     'all storage contents (received, sent, status reports) and operation sequences, all statuses and delete flags',
     'Tests list two canned responses.',
     [MOD], [dict(name='listStoredSms, processStoredSms', where=MOD), dict(name='readStoredSms, deleteStoredSms, deleteMultipleStoredSms, _setSmsMemory', where=MOD)],
     'stateful (model-based) testing: simulated storage versus a reference model',
     'Operation sequences over a simulated modem with three storages.')
prop('C24', 'Delivery reports update exactly the message they belong to',
     'For every history of sent messages and status reports, in any order, a report with a message\'s reference sets that message\'s report and status '
     '(DELIVERED for status 0, FAILED otherwise) and no other message\'s; the status-report callback gets every '
     'report nobody is waiting for, exactly once, with reference, number, times and delivery status; and the report is removed '
     'from the modem. Reports for unknown references are only passed to the callback.',
     ['histories', 'inputs'],
     'all interleavings of sends and reports, any reference (with wrap-around), report statuses, PDU and text mode reports, bursts',
     'Tests send one message and one report.',
     [MOD], [dict(name='_handleSmsStatusReport, sentSms weak map', where=MOD), dict(name='SentSms.status', where=MOD)],
     'stateful (model-based) testing against a simulated modem',
     'Model of sent messages keyed by reference.')
prop('C25', 'Waiting for a delivery report ends with its own report or a timeout',
     'Sending with waiting returns once the report for that very message has arrived - even if it arrives right after '
     'or together with the confirmation - with the report attached; reports for other messages do not end the wait. If it does not arrive within '
     'the limit, TimeoutException is raised no earlier and not much later than the limit, and later operations work normally.',
     ['schedules', 'histories'],
     'all arrival times of the report relative to confirmation, start of waiting and limit; other reports arriving meanwhile; interleavings',
     'Tests deliver the one report 100 ms later on a wall clock.',
     [MOD], [dict(name='_reportEvent handling', where=MOD + ' sendSms, _handleSmsStatusReport')],
     'schedule exploration with a virtual clock against a simulated modem',
     'Arrival times and interleavings generated.')
prop('C26', 'USSD requests return the network\'s answer and session state',
     'Sending a USSD string sends that very string, and returns the message of the network\'s answer - whether it arrives before or '
     'after the final OK, contains line breaks or text that looks like other notifications, or comes with an extra session-release line - and '
     'whether the session is still active. Errors raise CommandError and silence TimeoutException after the limit; replying is only possible in an '
     'active session, cancelling sends the release only in an active one, and each request gets its own answer, later ones unaffected by earlier failures.',
     ['inputs', 'histories'],
     'all answer texts, session states, orders, delays, errors and multi-step sessions',
     'Tests cover six canned exchanges.',
     [MOD], [dict(name='sendUssd, _handleUssd, _parseCusdResponse', where=MOD), dict(name='Ussd', where=MOD)],
     'stateful property-based testing against a simulated USSD service',
     'Answers arrive in one burst; message texts do not contain the sequence (quote, comma, digit) that ends them on the wire; blank lines inside a message are a known finding.')
prop('C27', 'Outgoing call objects track the real call on every modem type',
     'For each supported modem family, a dialled call returned by dial() has the dialled number and its type (0 for voice) and is active; it becomes answered exactly when '
     'the remote side answers, and inactive and no longer among the active calls when it is rejected or ended by either side; the status callback runs once '
     'for each such change made by the remote side and sees the state after the change. If the call is not established in time, dial raises TimeoutException and '
     'no call is left; hanging up sends the hang-up command only for an active call. A status callback that raises does not stop the call from being tracked to its end.',
     ['histories', 'schedules', 'configurations'],
     'all sequences of dial, answer, reject, remote and local hang-up with any delays on each modem family',
     'Tests run a few fixed scripts with real-time sleeps.',
     [MOD], [dict(name='dial, _handleCallInitiated/_handleCallAnswered/_handleCallEnded/_handleCallRejected, _pollCallStatus', where=MOD),
             dict(name='Call', where=MOD)],
     'stateful (model-based) testing against a simulated call switch with a virtual clock',
     'Simulated switch for Huawei, Wavecom, ZTE and polled modems.')
prop('C28', 'Incoming calls are announced per ring and tracked separately',
     'Every ring of an incoming call invokes the callback with the call object; rings of the same caller refer to the same object with a '
     'ring count of 1, 2, 3 and so on, while different simultaneous callers are different objects with different ids, and none ever replaces another active '
     'call. The object carries number, type of number and call type as announced (or none), answering and hanging up send the commands exactly once and '
     'only when applicable, and other unsolicited text containing the word RING is not taken for a call.',
     ['histories', 'inputs'],
     'all histories of rings from 1..3 callers (with and without caller ID, VOICE or other types, extended or plain format), answers, hang-ups and outgoing calls',
     'Tests ring one call at a time.',
     [MOD], [dict(name='_handleIncomingCall', where=MOD), dict(name='IncomingCall', where=MOD), dict(name='notification dispatch', where=MOD)],
     'stateful (model-based) testing against a simulated call switch',
     'Ring histories generated and compared with a model of active calls.')
prop('C29', 'DTMF tones are sent in order, only in an answered call',
     'For every non-empty tone string, sending tones in an answered call issues one command that plays exactly those tones in order using the '
     'command of the modem family (with the id of that call where it needs one); in a call that is not answered or has ended it raises InvalidStateException '
     'and sends nothing. An interrupted transmission (CME 3 or 30) raises InterruptedException holding the cause, and any other error CommandError; '
     'Call.dtmfSupport is true once a modem known to support DTMF has been connected, and that of a call exactly if its own modem is known to.',
     ['inputs', 'configurations', 'histories'],
     'all tone strings over 0-9*#A-D, modem families, call states and error codes',
     'Tests send three fixed strings.',
     [MOD], [dict(name='Call.sendDtmfTone', where=MOD)],
     'property-based testing: the simulated modem parses the commands back into tones',
     'Tone strings generated.')
prop('C30', 'Modem information queries return what the modem reports',
     'Manufacturer, model, revision, IMEI, IMSI, network name, signal strength and supported commands are returned as the modem '
     'reports them, for all values and response formats in use: unknown signal (99) is -1, an unsupported revision or command list is None, '
     'command lists are returned name by name without blanks or prefix, whether comma separated or one per line. A malformed or error answer never '
     'turns into a wrong value.',
     ['inputs'],
     'all values and formats of the replies',
     'Tests use one or two fixed values each.',
     [MOD], [dict(name='information properties of GsmModem', where=MOD)],
     'property-based testing: values rendered in each known format must be read back',
     'Values and formats generated.')
prop('C31', 'SMSC number and SMS mode settings always match the modem',
     'After any sequence of reading and setting the SMSC number and switching between text and PDU mode, before or after connecting, the values the API '
     'reports equal the ones the modem has, values set before connecting are applied by connecting, and a modem that loses its SMSC number when SMS parameters are set gets it back. '
     'A setting that the modem refuses is not reported as if it had been accepted.',
     ['histories', 'fault_sequences'],
     'all sequences of get/set operations on both settings, before and after connecting, with refusals',
     'Tests set each property once.',
     [MOD], [dict(name='smsc and smsTextMode properties, connect', where=MOD)],
     'stateful (model-based) testing against the simulated modem state',
     'Operation sequences generated.')
prop('C32', 'Waiting for network coverage ends with a signal or the right error',
     'Waiting returns the signal strength as soon as the modem is registered (home or roaming) and has signal, raises InvalidStateException if registration is '
     'denied or not being sought, ignores registration if the modem does not report it, and otherwise keeps polling; with a limit it raises '
     'TimeoutException no earlier than the limit and within a few seconds of it, and without one it never gives up.',
     ['histories'],
     'all timelines of registration status and signal strength, limits, unsupported registration queries',
     'Tests use three fixed timelines.',
     [MOD], [dict(name='waitForNetworkCoverage', where=MOD)],
     'property-based testing on a virtual clock against a generated network timeline',
     'Timelines of up to some minutes in virtual time.')
prop('C33', 'Text-mode timestamps and line helpers are exact',
     'Every text-mode timestamp from 1969 to 2068 with a zone of -79..+79 quarter hours is parsed to exactly that local time and UTC offset (kept by copying and pickling it), and '
     'malformed ones raise ValueError. The helpers that search lines return the first (or all) matching lines in order, or none, for every list of lines and prefix '
     'or pattern.',
     ['inputs'],
     'all timestamps and quarter-hour zones; all lists of lines, prefixes and patterns',
     'One timestamp is parsed by the tests.',
     [UTL], [dict(name='parseTextModeTimeStr', where=UTL), dict(name='lineStartingWith, lineMatching, lineMatchingPattern, allLinesMatchingPattern', where=UTL)],
     'property-based testing: round trip and naive reference implementations; zones enumerated',
     'All 159 zones enumerated.')

# ---------------------------------------------------------------- tools
prop('C34', 'The completion trie behaves as a string-keyed dictionary',
     'After any sequence of insertions, replacements and deletions of string keys (including the empty string and keys that are prefixes of each other), '
     'lookup, membership, get, length, key listing and iteration agree with a dictionary; deleting or looking up a missing key raises KeyError and changes nothing.',
     ['histories', 'inputs'],
     'all operation sequences over keys with shared prefixes',
     'Tests insert two fixed key sets and delete a few keys.',
     [TRIE], [dict(name='Trie.__setitem__/__getitem__/__delitem__/__len__/keys/__iter__', where=TRIE)],
     'stateful (model-based) testing against dict; exhaustive over short sequences',
     'Small alphabets force shared prefixes.')
prop('C35', 'Trie prefix queries agree with filtering all keys',
     'For every set of keys however it was built (including after deletions) and every prefix, listing by prefix returns exactly the keys starting with it, and the longest '
     'common prefix is that of all those keys, or the empty string if there is none.',
     ['inputs', 'histories'],
     'all key sets with shared prefixes, all prefixes, after any insert/delete history',
     'Tests query about ten prefixes of one key set.',
     [TRIE], [dict(name='Trie.keys(prefix), longestCommonPrefix', where=TRIE)],
     'stateful (model-based) testing against a naive filter',
     'Small alphabets force shared prefixes.')
prop('C36', 'The terminal\'s line editor sends exactly the edited line',
     'For every sequence of printable keys, cursor movements, home/end, backspace, delete and history keys, pressing enter sends to the modem exactly the text a '
     'conventional line editor would hold (stripped of surrounding blanks), terminated by a carriage return, and nothing is sent before. The up and down keys recall earlier non-empty lines '
     'in order, the newest 100 at most.',
     ['histories'],
     'all key sequences over printable characters and editing keys',
     'Tests press about thirty keys in one order.',
     [TERM], [dict(name='_inputLoop, cursor, backspace, delete, home/end handlers', where=TERM), dict(name='history handlers', where=TERM)],
     'stateful (model-based) testing against a reference line editor',
     'Keys are fed through the real input loop; the serial port is a recorder.')
prop('C37', 'No key sequence makes the terminal fail; completion only completes',
     'For every sequence of keys (completion, help, listing and unknown keys included) at any time the terminal keeps running and responding. The completion key '
     'never sends anything and changes the line only by replacing what was typed with the longest common prefix of the known commands that start with it (ignoring case), leaving the '
     'line alone when there is none.',
     ['histories', 'inputs'],
     'all key sequences including tab, ?command, command??, help, ls, lscat with any argument',
     'Tests complete three fixed prefixes and ask for help on a few commands.',
     [TERM, TRIE], [dict(name='_doCommandCompletion, __printCommandSyntax, _printCommandHelp, _doConfirmInput', where=TERM)],
     'fuzzing of key sequences through the input loop with a completion oracle',
     'Keys fed through the real input loop; the completion oracle filters the command table.')
prop('C38', 'Message entry in the terminal sends the typed message only',
     'After entering a message-send command and getting the modem\'s prompt, everything typed is forwarded as message text: confirmed with CTRL+Z the modem receives the typed text (lines included) '
     'followed by CTRL+Z, cancelled with ESC it receives ESC and none of the unconfirmed text, and in both cases the terminal is back in command mode with an empty line. Without a prompt '
     'it stays in command mode.',
     ['histories', 'schedules'],
     'all message texts with line breaks and edits, confirm or cancel, with or without prompt, followed by normal commands',
     'One test types one fixed message.',
     [TERM, SER], [dict(name='_doConfirmInput, _handleCtrlZ, _handleEsc', where=TERM)],
     'stateful property-based testing against a simulated modem prompt',
     'Keys fed through the real input loop on a virtual clock.')
prop('C39', 'The sendsms and identify tools do what they report',
     'On the given port and rate, sendsms sends exactly the typed text to the given destination and reports success only if the modem accepted it (and, with delivery waiting, delivery only if it was reported delivered); a missing port, PIN '
     'problem, lack of coverage or timeout ends with an error message and exit status 1. identify-modem prints the modem\'s actual identification.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all texts, destinations, PIN states, coverage states, delivery outcomes',
     'The tools have no tests.',
     ['tools/sendsms.py', 'tools/identify-modem.py'], [dict(name='main of both scripts', where='tools/sendsms.py, tools/identify-modem.py')],
     'property-based testing: scripts run in-process against the simulated modem',
     'Scripts executed with a simulated port, console input and virtual clock.')

prop('C40', 'The terminal\'s listings and help show the command table',
     'ls lists every known command exactly once with its name, ls CATEGORY exactly those of the category, lscat exactly the categories (in any case of the words). Help for a known command, asked for in any '
     'documented form (?COMMAND, COMMAND??, COMMAND=??, help COMMAND) and any case, shows that command\'s name, category, description, values with their meanings and its syntax in the right order, and not another command\'s; for '
     'an unknown command it says that there is none; the completion key shows the syntax of a fully typed command and otherwise lists the commands that can complete the line. Nothing is sent to the modem.',
     ['inputs'],
     'all commands of the table in all forms and cases, all categories, unknown names',
     'No test exercises listings or help.',
     [TERM, TRIE], [dict(name='_printCommandHelp, ls and lscat in _doConfirmInput', where=TERM)],
     'exhaustive and property-based testing against the command table',
     'Lines typed through the real input loop; the screen is emulated. Every command in four forms enumerated.')
prop('C41', 'Command scripts are sent line by line',
     'Loading a file sends each of its lines exactly once, in order, stripped of surrounding blanks and terminated by a carriage return, as if typed: blank lines and lines that begin with # are skipped, lines the terminal handles itself are '
     'not sent, nested scripts are expanded in place, and a script already being loaded is not loaded again. A missing file is reported and sends nothing. The terminal goes on normally afterwards.',
     ['inputs', 'histories'],
     'all scripts of text lines, comments, blanks, local commands and nested scripts, with any line ends',
     'No test loads a script.',
     [TERM], [dict(name='load in _doConfirmInput', where=TERM)],
     'property-based testing against a reference expansion of the script',
     'Scripts in a scratch directory, loaded by typing the command through the real input loop on a virtual clock.')
prop('C42', 'The terminal shows the line being edited',
     'After every key that changes the line or the cursor, in command mode and in message entry, after every notification and after every answer, the screen\'s current line is the prompt followed by exactly the line being edited, with the cursor '
     'in its column; a notification or answer appears on lines of its own above it, without remains of the edited line, and does not disturb the editing.',
     ['histories', 'schedules'],
     'all sequences of keys, notifications, commands, sent and cancelled messages',
     'No test looks at the screen.',
     [TERM], [dict(name='_refreshInputPrompt, _removeInputPrompt, _handleModemNotification', where=TERM)],
     'stateful property-based testing: screen emulation against a reference editor',
     'Keys through the real input loop; stdout interpreted by a small terminal emulator.')
prop('C43', 'The raw terminal passes everything through; both terminals end cleanly',
     'In raw mode every key is sent to the modem exactly once, in order and unchanged (Enter as a carriage return) and echoed, and every line from the modem is printed exactly once, in order. The exit keys send nothing and, in both modes and '
     'also while the modem is sending, end the terminal: input and reader threads end, the port is closed, and the program finishes; it also finishes when the port fails.',
     ['histories', 'schedules'],
     'all sequences of keys and modem output, both terminals, started directly or by the gsmterm program',
     'The terminals have no tests.',
     [TERM, 'tools/gsmterm.py'], [dict(name='RawTerm._inputLoop, stop, _exit', where=TERM), dict(name='main', where='tools/gsmterm.py')],
     'property-based testing on a simulated line with generated schedules',
     'Keys through the real input loop; the serial port is a recorder.')
prop('C44', 'Every key typed at the console reaches the terminal',
     'Every key typed at the console, including the cursor and editing keys, is delivered to the terminal as text exactly once, in order and one at a time, also when several keys are typed or pasted at once. While the terminal runs the console neither echoes nor '
     'waits for whole lines nor interprets signal keys, and its modes are restored at the end.',
     ['inputs', 'schedules'],
     'all sequences of keys, read one at a time or together',
     'The console has no tests.',
     [TERM], [dict(name='Console.getkey, setup, cleanup', where=TERM)],
     'property-based testing on a real pseudo terminal',
     'The real console class on a pseudo terminal pair; keys written to the other end.')

prop('C45', 'The features of the library do not disturb each other',
     'In any sequence of sending, receiving, delivery reports, USSD sessions, dialling, incoming calls, stored-message operations, mode changes and failing commands - with messages and reports arriving '
     'meanwhile - every operation has the result it has alone, every received message and report reaches its callback exactly once and leaves the storage, every call is ended in the end and no '
     'commands overlap. A callback that raises an exception affects no other event. Several modems used in one process, also at the same time, do not affect each other.',
     ['histories', 'schedules'],
     'all sequences of operations with arrivals at any time, on one or two modems of any family, callbacks that raise',
     'Every test exercises one feature on a fresh modem object.',
     [MOD, SER], [dict(name='GsmModem: state shared by the operations and notification handlers', where=MOD), dict(name='SerialComms.write, notification dispatch', where=SER)],
     'stateful (model-based) testing of mixed sessions against simulated modems',
     'Sessions of up to 14 operations; arrivals at quiet points of the line; one call at a time on each modem.')
prop('C46', 'A modem object can be connected again after closing or losing the port',
     'After close() or the loss of the port - idle, during a command, in the middle of a notification, or after a connect() that failed because the port could not be opened, a PIN was missing or wrong or the modem refused a '
     'command - connect() sets up the modem as if for the first time, even if another modem has been attached, and every operation works as on a new object. Nothing the modem '
     'said before the interruption is taken for something said afterwards. The SMS mode chosen by the user is applied again, messages sent before still get their delivery reports, and messages stored meanwhile can be processed.',
     ['histories', 'fault_sequences', 'schedules'],
     'all sequences of operations with interruptions of each kind, and the family and features of the modem attached afterwards',
     'No test connects an object twice.',
     [MOD, SER], [dict(name='connect, close, read loop', where=SER), dict(name='GsmModem.connect', where=MOD)],
     'stateful (model-based) testing with injected faults against simulated modems',
     'Up to three reconnections per session, no calls in progress; also from within the fatal error callback.')

prop('C47', 'The tools understand their command line with either argument parser',
     'gsmterm, sendsms and identify-modem use exactly the port, rate, PIN, destination and switches given on their command line, whatever the order and the form of the '
     'options (short or long, value attached or separate), and the defaults for those not given; the parser for Python 2.6 and the one for later versions understand the same '
     'command lines alike. A missing or surplus argument, an unknown option or an option without its value ends with a message and a non-zero exit status before any port is opened, '
     'and the help names every option and argument.',
     ['inputs', 'configurations'],
     'all command lines of the three tools with each option in every form and order, for both argument parsers',
     'No test runs the tools.',
     ['tools/gsmterm.py', 'tools/sendsms.py', 'tools/identify-modem.py', 'tools/gsmtermlib/posoptparse.py'],
     [dict(name='parseArgs, parseArgsPy26, main', where='tools/sendsms.py'), dict(name='PosOptionParser', where='tools/gsmtermlib/posoptparse.py')],
     'property-based testing: command lines rendered from generated option values, differential between the two parsers, modem and terminal replaced by recording stand-ins',
     'Modem and terminal are stand-ins that record; the tools themselves run unchanged.')


prop('C48', 'A port that exchanges bytes works like one that exchanges text',
     'On a serial port that delivers and accepts bytes, as pyserial does on Python 3, commands, responses, notifications, messages, reports, USSD, calls, DTMF tones, reconnection and '
     'the terminals behave exactly as on a port that exchanges text. Every character from 0 to 255 arrives unchanged in both directions, however the bytes are grouped.',
     ['inputs', 'histories', 'schedules', 'configurations'],
     'the cases of the other wire-level properties on a port of bytes, all 256 characters in each direction, and whole sessions with the installed pyserial on a pseudo-terminal',
     'The mock of the tests exchanges text; no test opens a real port.',
     ['gsmmodem/serial_comms.py', 'tools/gsmtermlib/terminal.py'],
     [dict(name='_writePort, _readLoop', where='gsmmodem/serial_comms.py')],
     'property-based testing: differential of a text port against a bytes port through the oracles of the other properties, round-trip of all characters, and sessions on a pseudo-terminal',
     'Text that has no byte (characters above 255) is outside. The pseudo-terminal sessions run in real time with a scripted device.')


prop('C49', 'Long sessions keep nothing of operations that have ended',
     'However long a modem object is used, what the library keeps does not grow with the number of operations: messages, reports, USSD answers and calls that the user no longer holds '
     'are released, no thread outlives its operation, and only the port in use is open, also after reconnections. After closing, no thread and no open port is left, and the modem object itself is '
     'released once the user drops it, even if the user still holds messages, answers or calls of it.',
     ['histories', 'configurations'],
     'operations of every kind, failing ones and reconnections included, repeated over many rounds on all modem families in both SMS modes',
     'Tests run a handful of operations and never look at what is left behind.',
     ['gsmmodem/modem.py', 'gsmmodem/serial_comms.py'],
     [dict(name='sentSms (weak references), activeCalls, weakref.proxy(gsmModem)', where='gsmmodem/modem.py'), dict(name='close, _readLoop', where='gsmmodem/serial_comms.py')],
     'property-based testing: generated histories repeated; living objects, threads, ports and size of the modem object compared between few and many rounds',
     'Growth is judged between 6 and 32 rounds; a constant amount (the latest answer) may be kept.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = {'files': p['files'], 'mechanism': p['mech']}
            if p['state']:
                anchors['state'] = p['state']
            if p['observe']:
                anchors['observe_at'] = p['observe']
            anchors['hook_needed'] = p['hook']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': anchors}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': 'bash check.sh %s' % p['id'],
                           'thorough_cmd': 'bash check.sh %s' % p['id'],
                           'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. Every check runs /verif/run.py under python3-vt against the sources in /repo; tier from VERIF_TIER.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    import re
    for p in P:
        n = len(re.findall(r'[.](?:\s|$)', p['statement']))
        if n > 3:
            print('statement of', p['id'], 'has', n, 'sentences')


if __name__ == '__main__':
    main()
