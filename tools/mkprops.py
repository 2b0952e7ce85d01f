#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
S="src/"
p("C01","Bencode round trip",
  "Any value built from non-empty strings, signed integers of every supported width, lists and dictionaries with non-empty keys, nested up to the decoder's stated limit of 10000 levels, encodes without error, and decoding that encoding gives back an equal value in which every integer is a 64-bit integer. This holds for the whole integer range and for arbitrary string bytes.",
  ["inputs"],"all encodable values: every integer, every string content, every nesting",
  "The tests round-trip three torrent files and a handful of literals; they never reach integer extremes, delimiter bytes inside strings or unusual nestings.",
  [S+"bencode/encode.go",S+"bencode/decode.go"],
  [("Encode",S+"bencode/encode.go"),("Decode",S+"bencode/decode.go")],observe=["bencode.Encode","bencode.Decode"])
p("C02","Bencode output is canonical and order independent",
  "An encoding is canonical bencoding: lengths and integers in minimal decimal form, dictionary keys in ascending byte order, and the same bytes whatever order a dictionary was built or is iterated in. Encoding a value that has no bencoding (an unsupported type, an empty string or an empty key, at any depth) returns an error, and encoding never changes the value.",
  ["inputs","schedules"],"all values, and every map iteration order",
  "Map iteration order is random and the tests check one dictionary; a comparison that is wrong only for prefix keys or high bytes passes them.",
  [S+"bencode/encode.go"],[("sorted keys",S+"bencode/encode.go encodeDict")],observe=["bencode.Encode"])
p("C03","Bencode decoding of arbitrary bytes",
  "For every byte string the decoder terminates and returns a value or an error without crashing (nesting beyond its stated limit of 10000 levels is an error). If the input begins with a complete canonical bencoded item the result is exactly the value it denotes, whatever bytes follow; if its first item is truncated, or contains an integer that is empty, negative zero, zero-padded, non-numeric or outside the signed 64-bit range, or a string with no decimal length, the result is an error.",
  ["inputs"],"all byte strings",
  "The tests feed nine malformed strings; the decoder parses untrusted tracker and torrent bytes, where each byte position can be anything.",
  [S+"bencode/decode.go"],[("recursive descent with recover",S+"bencode/decode.go")],
  state=[("cursor","position in the input",S+"bencode/decode.go")],observe=["bencode.Decode"])
p("C04","Typed dictionary access",
  "Reading a dictionary key as a string, integer, unsigned integer, dictionary or list returns exactly the stored value when the key is present with that type, and an error otherwise; a negative integer read as unsigned is an error.",
  ["inputs"],"all keys, stored types and integer values",
  "The tests read five fixed entries; no negative integer is ever read as unsigned.",
  [S+"bencode/dict.go"],[("Get*",S+"bencode/dict.go")],observe=["bencode.Dict accessors"])
p("C05","Peer message encoding follows the wire format",
  "Every outgoing peer message is encoded as a 4-byte big-endian length of the rest, the message id byte, and its big-endian fields in the specified order (have: index; request: index, begin, length; piece: index, begin, block; bitfield: the field's bytes; choke, unchoke, interested, not interested: none), and keep-alive is four zero bytes. This holds for every field value and every block or bitfield content.",
  ["inputs"],"all field values and payloads",
  "The tests encode a few messages with small fields and no request message at all.",
  [S+"p2p/have.go",S+"p2p/request.go",S+"p2p/piece.go",S+"p2p/bitfield.go",S+"p2p/no_payload.go",S+"p2p/keepalive.go",S+"p2p/message.go"],
  [("Encode methods",S+"p2p/")],observe=["p2p.Message.Encode"])
p("C06","Peer message decoding of arbitrary bytes",
  "Decoding any byte buffer received from a peer terminates without crashing. A single message is decoded only when the buffer holds all the bytes its length prefix announces and that length fits its type; the message then carries exactly the field values those bytes denote and the reported size is prefix plus announced length, and anything else is an error.",
  ["inputs"],"all buffers, all announced lengths up to 2^32-1",
  "The tests decode well-formed buffers and four malformed ones; extreme length prefixes and truncated payloads are never tried.",
  [S+"p2p/message.go",S+"p2p/have.go",S+"p2p/request.go",S+"p2p/piece.go",S+"p2p/bitfield.go"],
  [("Decode",S+"p2p/message.go"),("DecodeMsg*",S+"p2p/")],observe=["p2p.Decode"])
p("C07","Message streams decode in order and survive buffer reuse",
  "Decoding a buffer that is a concatenation of valid messages returns exactly those messages in order and reports every byte as read; for any buffer it terminates, and what it reports as read is the total encoded size of the messages it returns. Later overwriting the receive buffer does not change a bitfield message already decoded.",
  ["inputs","histories"],"all message sequences and all buffers",
  "The tests decode three fixed sequences; a stream that stalls the loop or a payload aliasing the buffer shows only on specific contents.",
  [S+"p2p/message.go",S+"p2p/bitfield.go"],[("DecodeAll",S+"p2p/message.go"),("copy of the bitfield bytes",S+"p2p/bitfield.go")],observe=["p2p.DecodeAll"])
p("C08","Bitfield reads, writes and counts agree",
  "After any sequence of set, clear and fill operations on a bitfield of any size, each index reads as last written, the number of set bits equals the number of indices that read true, and it is complete exactly when all do. Bit i is the (i mod 8)-th most significant bit of byte i/8 of the exported bytes, and operations on one index never change another or the size.",
  ["inputs","histories"],"all sizes, contents, indices and operation histories",
  "The tests use a 16-bit field and eight operations; counter drift needs particular contents and repeated writes.",
  [S+"bf/bitfield.go"],[("Get/Set/Fill",S+"bf/bitfield.go")],
  state=[("nset","cached number of set bits",S+"bf/bitfield.go")],observe=["bf.Bitfield"])
p("C09","Bitfields imported from bytes are exact",
  "Building a bitfield from message bytes succeeds exactly when the bit count fits the number of payload bytes (more than 8(n-1), at most 8n, n at least 1), and then every index reads the corresponding payload bit and the set count ignores spare bits. Resizing within the same byte count recounts correctly, and a resize that would change the byte count is refused.",
  ["inputs"],"all byte contents and bit counts",
  "Eight fixed byte patterns are tested; resizing is not tested at all.",
  [S+"bf/bitfield.go"],[("FromBytes, SetNbits, calcNset",S+"bf/bitfield.go")],observe=["bf.FromBytes","bf.Bitfield.SetNbits"])
p("C10","Pieces partition the torrent's files",
  "For every list of file lengths (zero-length files included) and every positive piece length, the file segments of the pieces, taken in piece order, cover each byte of each file exactly once and in order; every piece but the last totals the piece length and the last totals the reported last-piece length, between 1 and the piece length. Each non-empty file's start and end piece and offset agree with that layout, and the files listed for a piece include every file with bytes in it and no other non-empty file.",
  ["inputs","configurations"],"all file lists and piece lengths",
  "The tests fix five layouts with piece lengths 3 to 5; boundaries depend on the interplay of all lengths.",
  [S+"torrent/filesd/flist.go",S+"torrent/filesd/entry.go",S+"torrent/info/piecemap.go",S+"torrent/info/info.go"],
  [("MakeFileList",S+"torrent/filesd/flist.go"),("PieceInfo",S+"torrent/filesd/entry.go"),("MakePieceMap",S+"torrent/info/piecemap.go")],observe=["info.NewTorInfo","TorInfo.PieceLookup","FileList.GetFiles"])
p("C11","Metainfo is validated, never trusted",
  "Loading any info dictionary terminates and gives an error or a consistent torrent: name, positive piece length, non-negative file lengths, and exactly one 20-byte hash per piece of the total length. Missing or mistyped required keys (name, piece length, pieces, and a length or else a file list), non-positive piece length, negative or overflowing lengths, empty file paths and hash strings of the wrong size are errors and never crash.",
  ["inputs"],"all info dictionaries",
  "Only well-formed torrents are loaded by the tests; hostile dictionaries never are.",
  [S+"torrent/info/info.go",S+"torrent/filesd/entrybase.go",S+"torrent/info/piecemap.go"],
  [("FromDict, NewTorInfo",S+"torrent/info/info.go"),("FromBenList",S+"torrent/filesd/entrybase.go")],observe=["info.FromDict"])
p("C12","Torrent files stay inside the working directory",
  "Whatever names and path components a torrent's info dictionary contains, loading it either fails or maps every file to a distinct path strictly inside the working directory; a multi-file torrent's files lie under the torrent's own folder. Ordinary names (including ones with dots in them) are accepted and map to working directory, torrent name and path components joined in order.",
  ["inputs"],"all names and path component lists",
  "The tests load only benign torrents; containment must hold for every hostile name.",
  [S+"torrent/info/info.go",S+"torrent/filesd/entrybase.go"],[("local path computation",S+"torrent/info/info.go FromDict")],observe=["Entry.LocalPath"])
p("C13","Infohash identifies the info dictionary in the file",
  "The infohash of a loaded torrent is the SHA-1 of the exact bytes of the info value in the torrent file, and its announce URL is the file's; a file for which that cannot be guaranteed (not a dictionary, no announce, or no info dictionary) is rejected with an error. A torrent built from parts has as infohash the SHA-1 of the canonical encoding of its name, piece length, hashes, private flag and length or file list.",
  ["inputs"],"all torrent files",
  "Three known torrents are hashed; a wrong hash for unusual dictionaries goes unnoticed.",
  [S+"torrent/torrent.go",S+"torrent/info/info.go",S+"torrent/filesd/entrybase.go"],[("FromTorrentFile",S+"torrent/torrent.go"),("NewTorrent, Bencode",S+"torrent/torrent.go")],observe=["Torrent.Infohash"])
p("C14","Created torrents hash exactly the file contents",
  "Creating a torrent from files yields one hash per piece, the SHA-1 of each consecutive piece-length run of the concatenated contents in the given order (the last run may be shorter), the right file lengths and paths, for every set of file sizes and every positive piece length, however the reads are split. An unreadable file or an invalid piece length gives an error.",
  ["inputs","fault_sequences"],"all file contents and sizes, piece lengths and read splits",
  "Three fixtures are hashed; buffer boundaries, short reads and large piece lengths are not exercised.",
  [S+"torrent/info/info.go",S+"utils/utils.go"],[("CreateTorInfo",S+"torrent/info/info.go")],observe=["info.CreateTorInfo"])
p("C15","Verified piece storage",
  "Writing a piece succeeds only if the data has the piece's length and its SHA-1 is the torrent's hash for that index, and then exactly the bytes of that piece are stored across the files: reading it back gives the data, and every other byte of every file keeps its value. A refused write (bad index, length or hash) changes nothing, and reading any index either returns that piece's bytes as stored or an error.",
  ["inputs","histories"],"all layouts, indices, data and prior contents",
  "Two layouts are written in order with good data; hash mismatches and bad indices are never tried.",
  [S+"torrent/fileio/fileio.go",S+"torrent/info/info.go"],[("WritePiece, ReadPiece",S+"torrent/fileio/fileio.go")],
  state=[("lfps","open files by path",S+"torrent/fileio/fileio.go")],observe=["FileIO.WritePiece","FileIO.ReadPiece"])
p("C16","File preparation keeps existing data",
  "Opening a torrent file for a wanted length leaves a file of exactly that length: existing bytes up to that length are kept, missing bytes are zero, surplus is cut, and a missing file (with its parent directories) is created zero-filled. This holds for every existing size and every wanted length, and every file of a torrent is prepared.",
  ["inputs","histories"],"all existing sizes and contents and all wanted lengths",
  "The tests create new files at four sizes; opening an existing file is not tested.",
  [S+"utils/futils.go",S+"torrent/fileio/fileio.go"],[("OCAT, CreateZeroFilledFile, AppendZeros",S+"utils/futils.go")],observe=["utils.OCAT","FileIO.OCATAll"])
p("C17","Storage failures are reported",
  "When an underlying file operation fails or comes up short (file missing, closed, truncated, device full, not a regular file), preparing files, reading a piece and writing a piece return an error rather than success, without crashing and without leaving the file locked.",
  ["fault_sequences","inputs"],"every operation at which a fault can occur, every layout position",
  "No test injects a storage fault.",
  [S+"torrent/fileio/fileio.go",S+"utils/futils.go"],[("error propagation",S+"torrent/fileio/fileio.go")],observe=["FileIO"])
p("C18","Have-bits reflect verified data on disk",
  "After a swarm validates its files, it has a piece marked exactly when the bytes on disk for that piece hash to the torrent's hash for that index, for every mix of good and bad pieces including a short last piece; a read failure is reported as an error.",
  ["inputs"],"all contents, all subsets of correct pieces",
  "Swarm validation has no test.",
  [S+"swarm/swarm.go"],[("Validate",S+"swarm/swarm.go")],observe=["Swarm.Bf"])
p("C19","Tracker announce carries exact parameters",
  "The announce request keeps the announce URL's host, path and existing query and adds parameters that a standard query parser reads back as exactly the torrent's infohash bytes, the peer id, port, uploaded, downloaded and left counts and compact=1. This holds for every infohash, peer id and counter value; a malformed announce URL gives an error, not a crash.",
  ["inputs"],"all infohashes, peer ids, ports and counters",
  "Requests are never built in tests; escaping depends on each byte value.",
  [S+"tracker/tracker.go"],[("newRequest",S+"tracker/tracker.go")],observe=["tracker.Get"])
p("C20","Tracker responses are parsed faithfully",
  "A tracker response gives the peers it lists (6-byte compact entries or dictionaries), in order with exact address and port, and its interval, counts and warning; a failure reason is returned as an error containing it. Responses with missing or mistyped required fields, compact strings not a multiple of 6, unparsable addresses or ports outside 0..65535 give an error, and no response crashes the client.",
  ["inputs"],"all response bodies",
  "One compact response is parsed; dictionary peers and malformed responses are not.",
  [S+"tracker/tracker.go"],[("newResponse, GetPeers",S+"tracker/tracker.go")],observe=["tracker.Get"])
p("C21","Peer addresses are dialable and identifying",
  "The address string of a peer splits, by the standard host:port rules, into exactly its IP address and port, for IPv4 and IPv6, and the peer's identifying string differs for peers with different id, address or port.",
  ["inputs"],"all addresses, ports and ids",
  "Addresses are never inspected by tests.",
  [S+"peer/info.go"],[("MakePeer",S+"peer/info.go")],observe=["peer.Info.Addr","peer.Info.String"])
p("C22","Transfer statistics never go negative",
  "Uploaded and downloaded totals are the initial values plus all increments, and the bytes left are the initial value minus all decrements, never below zero, whatever the order of updates (totals that fit 64 bits); each total is changed by its own updates only.",
  ["inputs","histories"],"all initial values, amounts and update orders",
  "Statistics have no test.",
  [S+"tracker/stats.go"],[("Stats",S+"tracker/stats.go")],observe=["tracker.Stats"])
p("C23","A piece is assigned to one eligible peer at a time",
  "Over any history of peers joining, announcing pieces, leaving and asking for work, the piece tracker hands a peer only a piece that we lack and that this peer announced, and never one that is already assigned to a peer that has not left; when a peer leaves, the pieces assigned to it become available to others. It says that there is nothing to hand out only when no such piece exists.",
  ["histories","inputs"],"all histories of register, unregister and request by any peers",
  "The tests make at most one request per peer, so repeated assignment is never observed.",
  [S+"swarm/piecetracker.go",S+"utils/ds/linklist.go",S+"utils/ds/set.go"],[("NextPiece, Register, RegisterBF, Unregister",S+"swarm/piecetracker.go")],
  state=[("buckets","pieces by availability",S+"swarm/piecetracker.go"),("active","piece is assigned",S+"swarm/piecetracker.go")],observe=["PeerPieceTracker"])
p("C24","Rarest eligible piece first, for any number of peers",
  "The piece handed out is one of the eligible pieces announced by the fewest peers (all counts of 63 and more rank equal), for any announcement and departure history, repeated announcements by one peer counting once. Any number of peers may hold a piece and leave again without a crash.",
  ["histories","inputs"],"all availability histories, any number of peers",
  "Tests use at most four peers; the highest availability bucket is never reached.",
  [S+"swarm/piecetracker.go"],[("availability buckets",S+"swarm/piecetracker.go")],observe=["PeerPieceTracker.NextPiece"])
p("C25","Block requests tile the piece",
  "When the client downloads a piece it sends block requests for that index that start at 0, are consecutive, are each between 1 and 16384 bytes, and total exactly the piece's length (the shorter length for the last piece); generation terminates for every piece and last-piece length below 4 GiB.",
  ["inputs","configurations"],"all piece lengths and last-piece lengths",
  "Request generation has no test.",
  [S+"swarm/peerhandler.go"],[("createReqMessages, requestLoop",S+"swarm/peerhandler.go")],observe=["bytes written to the peer connection"])
p("C26","Only verified, requested bytes are served",
  "For any request message from a peer, the client replies with a piece message only if it has that piece and the requested range lies within it, and then the reply carries the same index and begin and exactly those stored bytes; any other request yields no data and never crashes the client.",
  ["inputs"],"all indices, offsets and lengths, any have-set",
  "Serving has no test; requests come from untrusted peers with arbitrary 32-bit fields.",
  [S+"swarm/msghandler.go",S+"torrent/fileio/fileio.go"],[("handleRequest",S+"swarm/msghandler.go")],observe=["bytes written to the peer connection"])
p("C27","Handshake admission is exact",
  "An incoming connection is admitted exactly when its first 68 bytes are a handshake with the right protocol string and this torrent's infohash, whatever the reserved bytes and peer id and however the network splits those bytes; then the client sends its own 68-byte handshake with the same infohash and its peer id, followed by its bitfield. Otherwise the connection is refused and nothing is sent.",
  ["inputs","schedules"],"all 68-byte prefixes, truncations and splits",
  "Handshakes have no test.",
  [S+"swarm/handshake.go",S+"swarm/peerhandler.go"],[("ValidHandshake, FromIncoming",S+"swarm/")],observe=["swarm.FromIncoming"])
p("C28","Peer bitfields register what the peer has",
  "On a bitfield message of the right size, the peer becomes eligible for exactly the pieces whose bits are set among the torrent's pieces (spare bits ignored); a non-empty bitfield of another size is an error that ends the session (an empty one is never used), and no message sequence crashes the client.",
  ["inputs","histories"],"all bitfield contents and sizes",
  "Message handling has no test.",
  [S+"swarm/msghandler.go",S+"swarm/piecetracker.go"],[("handleBitfield",S+"swarm/msghandler.go")],observe=["PeerPieceTracker.NextPiece"])
p("C29","Messages are handled however the stream is split",
  "The messages a peer sends have the same effect however TCP splits or merges their bytes across reads.",
  ["schedules","inputs"],"all message sequences and all splits of their bytes into reads",
  "The receive path has no test; one-read-per-message is not guaranteed by TCP.",
  [S+"swarm/peerhandler.go",S+"swarm/msghandler.go",S+"io/readloop.go"],[("recvLoop",S+"swarm/peerhandler.go")],observe=["replies on the peer connection"])
p("C30","A failed session ends cleanly",
  "When a peer session hits an error (read or write failure, protocol error), its handler stops all of its activities, reports the error and releases the peer's piece assignments, in every interleaving of its activities.",
  ["schedules","fault_sequences"],"all interleavings of the receive, request and keep-alive activities and all failure points",
  "No test runs a session.",
  [S+"swarm/peerhandler.go",S+"io/readloop.go"],[("Loop",S+"swarm/peerhandler.go")],observe=["PeerHandler.Loop returns"])
p("C31","Rate limits bound every window",
  "With a positive rate set, a transfer starts only while fewer bytes than the rate have been admitted in the current one-second window, so a window admits less than the rate plus one transfer, also with concurrent callers, and waits no longer than for the next such window; with no limit transfers are never delayed. Every transfer passes the caller's bytes through unchanged exactly once and returns the underlying error.",
  ["inputs","schedules"],"all rates, sizes and interleavings of callers and ticks",
  "The limiter has no test.",
  [S+"io/ratelimit.go"],[("Read, Write, Run",S+"io/ratelimit.go")],state=[("rUsed, wUsed","bytes admitted in this window",S+"io/ratelimit.go")],observe=["RateLimitIO"])
p("C32","The read loop delivers every byte in order",
  "Everything read from a connection is delivered to the consumer exactly once, in order, and is not overwritten before the consumer says it is ready; a read error or end of stream is reported after the delivered data, a connection that stays silent for the timeout is reported as an error then and not before, and finishing the loop ends it in every interleaving.",
  ["schedules","inputs"],"all read sizes, errors, and interleavings of reader and consumer",
  "The read loop has no test.",
  [S+"io/readloop.go"],[("Run, Ready, Finish",S+"io/readloop.go")],observe=["ReadLoop channels"])
p("C33","Rate options mean what they say",
  "A rate option consisting of an optional minus sign, decimal digits and an optional unit letter B, K, M or G in either case sets exactly that number of bytes (units being powers of 1024); anything else, including a value that does not fit, is rejected with an error and never silently changed. A port outside 0..65535 is rejected and a missing input is rejected.",
  ["inputs","configurations"],"all option strings",
  "Option parsing has no test.",
  [S+"utils/opts.go"],[("parseSizeUnits, Validate",S+"utils/opts.go")],observe=["utils.GetOpts"])
p("C34","Generated peer ids are well formed",
  "Every generated peer id is exactly 20 bytes: the client prefix -GT0000- followed by 12 ASCII letters, whatever the clock and random source give.",
  ["inputs"],"all clock values and random streams",
  "Peer ids have no test.",
  [S+"utils/utils.go"],[("NewPeerId",S+"utils/utils.go")],observe=["utils.NewPeerId"])
p("C35","Segmenting and hashing helpers lose nothing",
  "Splitting data into segments of a positive size gives segments that concatenate to the data, all of that size except a shorter non-empty last one; hashing slices gives the concatenation of their SHA-1 digests in order; swap-removal of an index removes exactly that element and keeps all others.",
  ["inputs"],"all data, sizes and indices",
  "Three small cases each are tested.",
  [S+"utils/utils.go"],[("SegmentData, HashSlices, RemoveSwap",S+"utils/utils.go")],observe=["utils"])
p("C36","Containers behave like their abstract models",
  "Under any sequence of operations the linked list enumerates, from its head, exactly its current nodes, most recently added first, with consistent back links, and the keyed set behaves as a mathematical set of keys (membership, size, whether an operation changed it, and the list of items).",
  ["histories"],"all operation sequences",
  "A few fixed sequences are tested; link corruption needs particular removal orders.",
  [S+"utils/ds/linklist.go",S+"utils/ds/set.go"],[("LinkedList, Set",S+"utils/ds/")],observe=["ds.LinkedList","ds.Set"])
p("C37","Human readable sizes are accurate",
  "For every non-negative byte count the reported number times its unit (B, KiB, MiB, GiB, TiB, PiB, EiB) is the count up to floating-point rounding, with the number below 1024 and at least 1 unless the count is below 1 in that unit.",
  ["inputs"],"all 64-bit counts",
  "Size formatting has no test.",
  [S+"utils/utils.go"],[("Bytes4Humans",S+"utils/utils.go")],observe=["utils.Bytes4Humans"])
p("C38","Piece tracking is safe under concurrency",
  "When several peer handlers use the piece tracker at the same time, every interleaving has the effect of some sequential order: no data race, no lost announcement or departure, no deadlock, and no piece handed to two of them.",
  ["schedules"],"all interleavings of tracker operations",
  "The tests are single-threaded.",
  [S+"swarm/piecetracker.go"],[("mutex",S+"swarm/piecetracker.go")],observe=["PeerPieceTracker"])
p("C39","Concurrent piece reads and writes are safe",
  "When pieces are read and written concurrently through one file store, operations on the same file exclude each other so that a read of a piece within one file sees it entirely before or after any write, with no data race and no deadlock, and all locks are free afterwards.",
  ["schedules"],"all interleavings of reads and writes",
  "The tests are single-threaded.",
  [S+"torrent/fileio/fileio.go"],[("per-file RWMutex",S+"torrent/fileio/fileio.go")],observe=["FileIO"])
p("C40","Outgoing connections verify the remote handshake",
  "A connection the client opens is used for messages only after the remote peer has answered with a handshake for the same infohash; other answers are refused.",
  ["inputs"],"all remote answers",
  "Outgoing connections have no test.",
  [S+"swarm/peerhandler.go"],[("FromBootstrap",S+"swarm/peerhandler.go")],observe=["swarm.FromBootstrap"])
p("C41","Sessions are kept alive",
  "While a session lasts the client sends a keep-alive (four zero bytes, never in the middle of another message) every 60 seconds, and the session of a peer that sends anything at least every 119 seconds is never ended for silence, however long it lasts; a peer silent for 120 seconds, or that takes nothing of what it is sent for 180, is disconnected, and nothing is sent to it after that.",
  ["histories"],"all sequences of messages and pauses of a session",
  "No test runs a session, and no unit test waits for minutes.",
  [S+"swarm/peerhandler.go",S+"io/readloop.go"],[("pingLoop, GetKeepAlive",S+"swarm/peerhandler.go"),("deadline",S+"io/readloop.go")],observe=["PeerHandler.Loop"])
p("C42","Starting a client",
  "Starting from options either fails with an error or gives a client whose files exist with the torrent's lengths and their existing bytes kept, whose have-bits are exactly the pieces on disk that match their hashes, which has announced itself exactly once to the torrent's tracker with its infohash, its own peer id, the configured port and as bytes left the total length of the missing pieces, which knows exactly the peers and counts the tracker answered, and whose upload and download limits are those of the options. If reading or validating the torrent, preparing or reading the files, or the announce fails, starting fails, without a crash, and the tracker is not contacted before the files are ready.",
  ["inputs","faults"],"all states of the files on disk, options and tracker answers",
  "Nothing in the tests starts a client.",
  [S+"swarm/swarm.go",S+"torrent/torrent.go",S+"torrent/fileio/fileio.go",S+"tracker/tracker.go",S+"utils/opts.go"],
  [("NewSwarm, Validate",S+"swarm/swarm.go")],observe=["swarm.NewSwarm"])
p("C43","Sessions do not interfere",
  "Sessions with several peers at the same time do not disturb each other: each peer gets exactly the replies to its own requests, in order; each missing piece is asked for from exactly one of the peers that have it; and the end of one session, for any reason, neither ends another one nor changes its replies or its pieces, while the ended session's pieces are asked for from others. There is no data race between sessions.",
  ["schedules","histories"],"all interleavings of several sessions",
  "No test runs a session, let alone two.",
  [S+"swarm/peerhandler.go",S+"swarm/msghandler.go",S+"swarm/piecetracker.go"],
  [("handler state",S+"swarm/peerhandler.go"),("requests",S+"swarm/piecetracker.go")],observe=["PeerHandler.Loop"])
p("C44","A started client serves every peer",
  "A started client connects exactly once to every peer the tracker returned and listens on the configured port; every peer that answers, or connects, with a right handshake gets a session of its own, whatever the other peers do (refuse the connection, send a wrong handshake, stay silent, leave, use up the connections the system allows), and without data races.",
  ["inputs","schedules"],"all combinations and interleavings of peers",
  "Nothing in the tests starts a client.",
  [S+"swarm/swarm.go"],[("Start, runListener",S+"swarm/swarm.go")],observe=["Swarm.Start"])
p("C45","Open files can be moved and closed",
  "Moving an open file puts its contents at the new path and leaves nothing at the old one, and its pieces read and write as before; closing a file makes the pieces in it fail and no others; closing all files leaves none open, even when one had been closed before (an error is returned then). Moving or closing a path that was never opened is an error and changes nothing, a move that fails changes nothing, and none of this leaves a lock held or disturbs concurrent reads and writes of other files.",
  ["histories","schedules"],"all sequences of operations, and concurrent ones",
  "The tests move and close one file each, with nothing else going on.",
  [S+"torrent/fileio/fileio.go"],[("Move, Close, CloseAll",S+"torrent/fileio/fileio.go")],observe=["FileIO"])
p("C46","Uploads respect the upload limit",
  "With a positive upload limit, a piece or request message is sent only while fewer bytes of such messages than the limit were sent in the current one-second window, in all sessions together, and every message is still sent as soon as a window has room; without a limit messages are not delayed.",
  ["inputs","histories"],"all limits and request sequences",
  "No test sends anything through a limited session.",
  [S+"swarm/msghandler.go",S+"swarm/peerhandler.go",S+"io/ratelimit.go"],[("RLIO.Write",S+"swarm/msghandler.go handleRequest")],observe=["PeerHandler.Loop"])
p("C47","Printed information is accurate",
  "The text printed about a torrent contains its name, announce URL, infohash in hexadecimal, number of pieces and length in bytes, and for a multi-file torrent every file with its length, in order; the text about a client also contains the tracker's counts and interval and every peer's address. Printing never crashes.",
  ["inputs"],"all torrents and tracker answers",
  "Nothing that is printed is tested.",
  [S+"torrent/torrent.go",S+"tracker/tracker.go",S+"peer/list.go",S+"swarm/swarm.go"],[("String methods",S+"torrent/torrent.go")],observe=["Torrent.String","Swarm.String"])
p("C48","Sessions keep asking as pieces become available",
  "While a session lasts, a piece that we lack and that its peer has announced in a bitfield - at the start, later, or before another peer that was asked for it left - is asked for within a quarter of a second of becoming available, from exactly one session that lasts, unless every peer that has it is already being asked for five pieces; no peer is ever asked for more than five pieces at once, for a piece it did not announce, or for one we have.",
  ["histories","schedules"],"all histories of peers coming, announcing pieces and leaving",
  "No test runs a session, so none sees what is asked for after the first moment.",
  [S+"swarm/peerhandler.go",S+"swarm/piecetracker.go",S+"swarm/msghandler.go"],[("requestLoop",S+"swarm/peerhandler.go"),("NextPiece, Register, Unregister",S+"swarm/piecetracker.go")],observe=["PeerHandler.Loop"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
