# The table of properties: properties.jsonl and MANIFEST.json are generated from it.
SEQ = "exhaustive bounded enumeration of inputs and environment answers on the real code, against a reference model"
SCHED = "stateless model checking of the real code under a controlled scheduler (all schedules within a preemption bound), race detector on the same bodies"
FAULT = "stateless model checking of the real code over a virtual file system: all crash points, torn writes and injected faults of bounded histories"
BOTH = "stateless model checking of the real code (controlled scheduler, virtual network, clock and file system), deviation bounded"
NOTE = "Decided on the real code built from /repo's working tree; complete within the bounds in the evidence file, nothing is said beyond them. Trusted: the reference model in the harness, the instrumenter and the runtime in rt/."

PROPS = []
NA = []
NOTES = "Sources are instrumented at build time (tool/instr) from /repo's working tree into a scratch copy; /repo carries no hooks. See DESIGN.md."

def P(id, title, statement, over, quant, why, files, mech, observe, technique, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=(note + " " if note else "") + NOTE))

P("C01", "Bencode encoding is canonical and round-trips",
  "Encoding a value gives exactly its canonical bencoding: integers and string lengths in minimal decimal, dictionary and struct keys in ascending byte order and each once, fields named by their tags, omitted or left out when they are tagged so or have no encoding. Decoding what was encoded into the same type gives an equal value. A value that cannot be expressed, or a writer that fails, is an error, never a panic, malformed output reported as success, or an encoder that fails for the values after it.",
  ["inputs", "histories"], "every value of the supported types, every order of map iteration, every position of a write error, every sequence of values on one encoder",
  "The tests encode a dozen fixed values; order of keys, emptiness, embedding and nesting interact, and a missing sort shows only for some map orders.",
  ["bencode/encode.go", "bencode/raw_message.go", "bencode/decode.go"],
  [("sorted keys, field table, nil handling", "bencode/encode.go"), ("raw messages", "bencode/raw_message.go")],
  ["bencode.Marshal", "bencode.Encoder.Encode", "bencode.Unmarshal"], SEQ)

P("C02", "The bencode decoder accepts exactly the grammar, on any input",
  "For every byte string, decoding the first value into an untyped or raw destination succeeds exactly if the string starts with a well formed bencoded value: integers without leading zeros, plus sign or negative zero, strings as long as announced, dictionary keys strictly ascending, everything terminated. It then gives that value and consumes exactly its bytes. No input panics, exhausts the stack or makes the decoder allocate memory out of proportion to the bytes it has read.",
  ["inputs"], "every byte string, in particular every prefix of every viable document, every claimed length and every nesting depth",
  "The tests try a handful of malformed inputs; acceptance of everything else, and what hostile lengths and nesting do, is open.",
  ["bencode/decode.go"], [("prefix dispatch, length and sign checks, key order, nesting bound", "bencode/decode.go")],
  ["bencode.Unmarshal", "bencode.Decoder.Decode"], SEQ,
  "Left open: string lengths with leading zeros, integers beyond 64 bits where they are only skipped.")

P("C03", "Typed decoding stores the document's value or fails",
  "Decoding a well formed document into a destination of any supported type either stores exactly the document's value, whatever the destination held before, or returns an error when kinds or ranges do not fit: integers are never truncated, surplus list elements never survive, each key reaches the field named by its tag or name, the shallower or tagged one if names collide. Unknown keys, and keys of ignored, unexported or ambiguous fields, are skipped without effect. It never panics.",
  ["inputs"], "every document and every destination type and previous content within the bounds",
  "The tests decode matching documents into fresh destinations; mismatches, overflow, stale content and every type composition are a product they cannot cover.",
  ["bencode/decode.go", "bencode/encode.go"], [("overflow checks, pointer allocation, field lookup, slice resizing", "bencode/decode.go")],
  ["bencode.Unmarshal"], SEQ, "Left open: the content of a destination after an error; what old container elements of a list contribute.")

P("C04", "Bencode streams do not depend on how the bytes arrive",
  "Reading consecutive values from one decoder gives the same values however the underlying reader cuts the bytes into reads, wherever values lie relative to buffers, and consumes exactly the bytes of each value. A stream that ends or fails inside a value gives an error that wraps the reader's error, after all values before it. Values that were decoded never change with the input buffer or with later values.",
  ["inputs", "fault_sequences"], "every chunking including empty reads and data together with the error, every truncation, every error position, every alignment to buffers",
  "The tests decode whole in-memory inputs; chunk boundaries inside lengths, integers and raw values never occur in them.",
  ["bencode/decode.go", "bencode/raw_message.go"], [("buffered reads, unread of the prefix", "bencode/decode.go")],
  ["bencode.NewDecoder", "bencode.Decoder.Decode"], SEQ)

P("C05", "Encoding and decoding may run concurrently",
  "Any number of goroutines may encode and decode values, including values of struct types nobody has encoded or decoded before and a value they share for reading; each gets exactly the result it gets alone, without deadlock or data race.",
  ["schedules"], "every interleaving of two to four codec calls on fresh types within the preemption bound",
  "No test uses the codec from two goroutines; the first use of a type builds shared state.",
  ["bencode/encode.go", "bencode/decode.go"], [("field table cache under its mutex", "bencode/encode.go")],
  ["bencode.Marshal", "bencode.Unmarshal"], SCHED)

P("C06", "The info hash is SHA-1 of the info dictionary's exact bytes",
  "The info hash of a decoded metainfo file is SHA-1 over exactly the bytes of its info dictionary as they appear in the file, including keys this client does not know, whatever surrounds the dictionary, however the bytes arrive and whatever was decoded before.",
  ["inputs"], "every combination of known and unknown keys, offsets relative to buffers, sizes, and cuts of the stream within the bounds",
  "A test hashes one or two files; unknown keys, buffer boundaries and re-encoding differences decide whether peers agree on the torrent's identity.",
  ["api/metainfo/metainfo.go", "bencode/decode.go"], [("hash over the raw dictionary", "api/metainfo/metainfo.go"), ("raw capture while skipping", "bencode/decode.go")],
  ["metainfo.Info.SHA1"], SEQ)

P("C07", "Piece lengths partition the content",
  "For every consistent single or multi file metainfo, the total length is the length of the file or the sum of the files, every piece but the last has the piece length, and the last has exactly the remainder, between one byte and the piece length, so that the pieces add up to the total.",
  ["inputs"], "every total, piece length and division into files up to the bounds, and boundary values up to several hundred TB",
  "The tests have one or two layouts; off by one at exact multiples and truncation of large sizes show only at boundaries.",
  ["api/metainfo/metainfo.go"], [("length arithmetic", "api/metainfo/metainfo.go")],
  ["metainfo.Info.GetLength", "metainfo.Info.GetPieceLength"], SEQ)

P("C08", "Metainfo round-trips through its file format",
  "Encoding metainfo gives the canonical document with exactly the fields that are set under their standard names, the info hash not among them, and decoding that document gives the same metainfo with piece hashes in order. A pieces string that is no multiple of 20 bytes, or a field of the wrong kind, is an error.",
  ["inputs"], "every combination of field values from the table, every length of the pieces string, every field with values of every wrong kind",
  "The tests decode two sample files; combinations of optional fields and malformed ones are not covered.",
  ["api/metainfo/metainfo.go"], [("field tags, piece and time codecs", "api/metainfo/metainfo.go")],
  ["bencode.Marshal", "bencode.Unmarshal", "metainfo.Metainfo"], SEQ)

P("C09", "Bitfields behave as sets and in wire order",
  "A bitfield represents a set of piece numbers, the most significant bit of the first byte being number 0: membership, addition, ascending listing and difference of bitfields of any two lengths agree with sets, asking about a number outside is false, and no operation changes its operands or shares memory with them.",
  ["inputs", "histories"], "every bitfield of up to two bytes, every pair within the bounds, every sequence of additions up to the depth",
  "The tests check a few bit patterns; unequal lengths and bits outside are not among them.",
  ["bitfield/bitfield.go"], [("bit arithmetic", "bitfield/bitfield.go")], ["bitfield.Bitfield"], SEQ)

P("C10", "Peer wire messages round-trip under any chunking",
  "Every handshake and message is written exactly as the peer protocol prescribes, and reading gives back the same type and fields and consumes exactly its bytes, however the connection cuts the bytes into reads and whatever follows. Messages read earlier never change, the clean end of the stream and read or write errors are passed on.",
  ["inputs", "fault_sequences"], "every message type with boundary field values, every chunking of two message sequences and of handshakes, every write error position",
  "The tests read whole messages from memory; a connection delivers them in arbitrary pieces.",
  ["api/peer/peer.go"], [("length prefix, full reads, big endian fields", "api/peer/peer.go")],
  ["peer.Write", "peer.ReadMessage", "peer.ReadHandshake"], SEQ)

P("C11", "Malformed peer wire data is an error, nothing else",
  "No bytes a peer can send make the reading of handshakes or messages panic or allocate memory out of proportion to sane messages: a message too short for its fields, a truncated message or handshake, or another protocol's handshake is an error. Messages of unknown types are skipped as a whole, so that the message after them is read correctly.",
  ["inputs"], "every type byte with every payload length up to 20, boundary length prefixes, every truncation, every change of a handshake byte",
  "The tests send well formed messages; any peer can send anything.",
  ["api/peer/peer.go"], [("length checks before field access", "api/peer/peer.go")],
  ["peer.ReadMessage", "peer.ReadHandshake"], SEQ)

P("C12", "Tracker announce queries round-trip",
  "An announce request is encoded as a query string that names every parameter once with its exact value, escaped so that every byte survives, and decoding that query gives the same request. A query with a malformed number, escape, or a hash that is not 20 bytes long is an error; order of parameters and unknown ones do not matter.",
  ["inputs"], "every combination of field values from the table, every byte at every position of hashes and texts, every malformed form",
  "The tests encode one or two requests; escaping and missing checks depend on the bytes.",
  ["api/tracker/tracker.go"], [("parameter table, escaping, length checks", "api/tracker/tracker.go")],
  ["tracker.Request.Encode", "tracker.Request.Decode"], SEQ)

P("C13", "Tracker responses round-trip in both peer formats",
  "A tracker response is encoded as the canonical dictionary with the fields that are set and its peers as a list of dictionaries or as six bytes per peer, address then big endian port, and decoding gives the same response with the peers in order. A compact string whose length is no multiple of six, or an entry without a textual address and an integer port, is an error, never a panic, and a peer the compact form cannot express is never turned into another address.",
  ["inputs"], "every combination of fields, every list of up to two or three peers of the alphabet, every compact length, every malformed entry in every position",
  "The tests decode one response of each form; a malicious or odd tracker can send anything.",
  ["api/tracker/tracker.go"], [("peer list codecs", "api/tracker/tracker.go")],
  ["tracker.Response", "tracker.Peers"], SEQ)

P("C14", "Magnet links yield their parameters",
  "Parsing a magnet link gives the topic, name, length, web seed, and all trackers and peer addresses in the order of the link and as often as they are there, unescaped byte for byte, whatever the order of parameters and whatever unknown ones are between them. A length that is no number, or a malformed link, is an error.",
  ["inputs"], "every selection and order of up to five parameters, every byte value in every text parameter, every form of the length",
  "The tests parse one link.",
  ["api/magnet/magnet.go"], [("query parsing", "api/magnet/magnet.go")], ["magnet.ParseMagnetURL"], SEQ)

ST = ["storage/storage.go", "storage/torrent.go", "storage/lazy_file_reader.go"]

P("C15", "Only data that matches its piece hash is ever stored or served",
  "Whatever blocks arrive, in whatever order, right or wrong, repeated, reset in between, over any number of restarts: GetBlock serves a piece, and the bitfield has it, exactly if all of its blocks were put with bytes whose SHA-1 is the piece's hash. Wrong bytes give a checksum error, reach neither the files a restart trusts nor the target, and after a reset the piece can be put again. The target appears only when every piece is complete.",
  ["histories"], "every sequence of puts, resets and restarts up to the depth, with right and wrong data for every block",
  "The tests put one wrong piece once; duplicates, resets at other moments, partial pieces and restarts combine freely in a real download.",
  ST, [("hash check before the rename, block bookkeeping, reset, Load", "storage/storage.go"), ("piece state", "storage/torrent.go")],
  ["storage.PutBlock", "storage.GetBlock", "storage.ResetPiece", "storage.Load", "storage.Torrent.Bitfield"], SEQ)

P("C16", "The finished torrent is byte for byte the content, in every layout",
  "For every division of content into pieces and files, pieces of any length, files of any number including empty ones, nested or flat, every order of arrival and every restart on the way, the target is exactly the described files with exactly the content, the work directory is left empty, and every block range of every complete piece reads the right bytes before completion, after it, and after a restart.",
  ["inputs", "histories"], "every layout within the bounds, every order of pieces and blocks, every restart point, every block range",
  "The tests have two layouts; the arithmetic of pieces that span files, files that end on boundaries and short last blocks has many edges.",
  ST, [("assembly of files from pieces", "storage/storage.go"), ("reads across files", "storage/storage.go"), ("lazy piece reader", "storage/lazy_file_reader.go")],
  ["storage.PutBlock", "storage.GetBlock", "storage.Load", "files in the target directory"], SEQ)

P("C17", "A crash at any point loses no complete piece and corrupts nothing",
  "If the process is killed at any point of a download, also again during the recovery, the next Load succeeds, has every piece that was complete, serves only right bytes, and the download can be finished to exactly the right target. After a power loss, when data not yet flushed may be missing or garbage, still nothing wrong is served and the download can be finished.",
  ["crash_points"], "every operation and every part of a write as crash point, repeated crashes, every loss of unflushed data, over all small histories",
  "No test interrupts a download inside an operation; a rename before the flush or the clean-up before the rename shows only there.",
  ST, [("temporary file, flush, rename, clean-up order", "storage/storage.go"), ("Load's trust in names and sizes", "storage/storage.go")],
  ["storage.Load after a crash", "files in the work and target directories"], FAULT)

P("C18", "File-system errors are reported and recoverable",
  "If a file-system operation fails, a write is cut short or a read breaks off, the call returns an error rather than success; wrong bytes are never served or left where a restart trusts them; the counter and bitfield stay right; the failed piece can be reset and put again, a storage whose loading failed can be loaded again, and after a restart the download can be finished to exactly the right target.",
  ["fault_sequences"], "every operation, pair of operations and suffix of operations failing in every way, over all small histories",
  "No test injects an error; unchecked results and partial state show only when one operation fails.",
  ST, [("error handling of PutBlock, Load and the assembly", "storage/storage.go")],
  ["storage.PutBlock", "storage.GetBlock", "storage.Load", "storage.Piece.Wait"], FAULT,
  "An assembly that failed is repeated by the next Load only; that is what the code provides and the property allows.")

P("C19", "Concurrent storage operations are linearizable",
  "PutBlock, GetBlock, ResetPiece, Downloaded and the waiters may be called from any number of goroutines: each call takes effect at one moment between its start and its end, of identical blocks exactly one is accepted, the torrent is assembled once. There is no deadlock and no data race, and the download can always be completed afterwards.",
  ["schedules"], "every schedule within the bound of every program of two threads with two operations or three with one",
  "The concurrency test runs one program on whatever schedule the machine gives; the lock order inversion it contained went unnoticed.",
  ST, [("torrent and piece locks", "storage/storage.go"), ("reset under the piece lock", "storage/torrent.go")],
  ["storage.PutBlock", "storage.GetBlock", "storage.ResetPiece", "storage.Downloaded"], SCHED)

P("C20", "Waiters return exactly when their piece or torrent is decided",
  "Piece.Wait returns nil once the piece is complete, an error once its attempt fails or is reset, and not before; Torrent.Wait returns nil once the target is in place, and not before. That holds for waiters that come before, during or after, for any number of them, over all attempts and after a restart; none is forgotten and none blocks the storage.",
  ["histories", "schedules"], "every sequence of operations up to the depth with a waiter at every moment, every schedule of waiters, puts and resets within the bound",
  "The tests never wait; the server's whole download loop hangs on these results.",
  ["storage/torrent.go", "storage/storage.go", "future/future.go"], [("one-shot results", "future/future.go"), ("delivery on completion, failure and reset", "storage/torrent.go")],
  ["storage.Piece.Wait", "storage.Torrent.Wait", "future.Future"], BOTH)

P("C21", "Metainfo cannot reach outside of the torrent's place",
  "Whatever names and paths a metainfo has, nothing outside of the torrent's own place in the target directory and the work directory is created, changed or removed. Metainfo with names that are no file names, files on top of each other, or sizes that contradict each other is refused by Load and by every block operation, without a panic; all other metainfo is accepted and its files end up exactly at their paths.",
  ["inputs"], "every name and path composed of the critical components, every pair of such files, every combination of boundary values of the sizes",
  "The tests use ordinary names; a torrent file is written by a stranger.",
  ["storage/torrent.go", "storage/storage.go"], [("validation of metainfo", "storage/torrent.go"), ("path composition", "storage/storage.go")],
  ["storage.New", "storage.Load", "storage.PutBlock", "paths given to the file system"], SEQ)

P("C22", "Invalid block arguments are refused without effect",
  "PutBlock with an index, offset or length that is not exactly one of the torrent's blocks, and GetBlock with a range that does not lie within a piece, return an error for every integer, never panic, never serve bytes of another piece, and change nothing: the download goes on as if the call had not been made.",
  ["inputs", "histories"], "every combination of boundary values in every phase of a download, mixed into every sequence of operations",
  "The tests try three invalid puts; the arguments come straight from other peers.",
  ST, [("argument checks", "storage/storage.go")], ["storage.PutBlock", "storage.GetBlock"], SEQ)

P("C23", "The download counter is the length of the complete pieces",
  "After every operation Downloaded is exactly the summed length of the complete pieces, counting each once, the short last one with its own length, failed and repeated attempts not at all, also after restarts from a partial or a finished download.",
  ["histories"], "every sequence of puts, resets and restarts up to the depth",
  "No test reads the counter, which trackers are told.",
  ST, [("counting in PutBlock and Load", "storage/storage.go")], ["storage.Downloaded"], SEQ)

P2P = ["p2p/server.go", "p2p/peer.go"]

P("C24", "A hostile peer harms nobody but itself",
  "Whatever bytes a peer sends or does not send, at any moment, in whatever pieces, and whether it then stays, leaves, resets or stops reading, the server does not crash or hang, and goes on for everybody else: a newly connected honest seeder's pieces are fetched and verified, and a leecher is served all of them, within minutes. Messages that are malformed, out of range or out of turn are ignored or end that peer's connection, nothing more.",
  ["inputs", "histories", "schedules"], "every sequence of up to three hostile messages, also as answers to requests, every cut and changed byte of a stream, every buffer size of a peer that does not read, all schedules within the bound",
  "There are no tests of this package; one unusual message or a peer that does not read in the wrong moment is enough to stop a server for all others.",
  P2P + ["api/peer/peer.go", "storage/storage.go"], [("message handling and its range checks", "p2p/peer.go"), ("write deadlines", "p2p/peer.go"), ("locks held while sending", "p2p/server.go")],
  ["p2p.Server on a virtual network"], BOTH, "Left open: many peers that together take pieces and never answer.")

P("C25", "A torrent its peers have is downloaded, whatever they stumble over",
  "If every missing piece is kept available by some honest peer the server can reach, the download completes in bounded time, with the exact bytes of the torrent on disk, although connections break and come back, peers choke and unchoke, lose, delay, repeat or falsify answers, are slow or late, and requests time out. No piece is forgotten, no peer with missing pieces is left unused for good.",
  ["schedules", "histories", "fault_sequences"], "every distribution of pieces to peers, every fault at every request and message, all schedules and timer orders within the bound",
  "There are no tests of this package; lost wake-ups and leaked in-flight marks need particular orders of chokes, timeouts and disconnects.",
  P2P + ["storage/storage.go", "storage/torrent.go"], [("download queue and pieces in flight", "p2p/server.go"), ("block requests and their ends", "p2p/peer.go")],
  ["p2p.Server on a virtual network"], BOTH)

P("C26", "Peers are served what they ask for, if they may ask",
  "Every block of a complete piece that an unchoked peer asks for is sent to it exactly once per request, in the order asked, with the right bytes; every connected peer is unchoked within the unchoking interval. A choked peer is sent no data, nor is anyone sent data of a piece that has not been verified or from outside of the torrent.",
  ["inputs", "schedules"], "every request of boundary values in every state, all schedules of several leechers within the bound",
  "There are no tests of this package; replies of different peers, downloads and unchoking run concurrently.",
  P2P + ["storage/storage.go"], [("request handling", "p2p/peer.go"), ("unchoking", "p2p/server.go")], ["p2p.Server on a virtual network"], BOTH,
  "Left open: whether a peer that asks while it is choked is disconnected.")

P("C27", "Only the right peers are admitted, each once, and places are given back",
  "A connection becomes active only after a handshake for this torrent from another peer, with the announced id if the tracker gave one, and there is at most one for each peer id and address and at most 50 altogether. All others are closed promptly, a silent one after the handshake timeout, and do not disturb the peers that are connected. Every place is free again after its connection has ended, in whatever way.",
  ["inputs", "schedules", "histories"], "every handshake deviation, every number of peers around the limit coming, leaving and coming again, the same peer arriving twice in all schedules within the bound",
  "There are no tests of this package; registering and unregistering races with itself, and a leaked place shows only after many connections.",
  P2P, [("Connect, disconnect, semaphore", "p2p/server.go"), ("Handshake", "p2p/peer.go")], ["p2p.Server on a virtual network"], BOTH)

P("C28", "A peer that sent a bad piece is cut off, and only that peer",
  "When a piece fetched from a peer fails its hash, the peer is disconnected and its address is not dialed again however often trackers list it; this also holds if it disconnects at that moment. No other peer is ever blocked for it, whatever the bad peer sends for blocks that others are asked for.",
  ["histories", "schedules"], "every position of a bad block, with and without disconnecting, several peers at a time, all schedules within the bound",
  "There are no tests of this package; who is blamed depends on the order of blocks, completion and disconnection.",
  P2P, [("Block", "p2p/server.go"), ("HandlePiece", "p2p/peer.go")], ["p2p.Server on a virtual network"], BOTH)

P("C29", "Stop ends everything, and what was downloaded is kept",
  "Stop, called at any moment once Start has begun to listen, also repeatedly or concurrently, makes Start return in bounded time; after that the port is free, every connection is closed, no goroutine of the server remains, no peer is dialed and no tracker is asked. Each run tells the tracker \"started\" at most once and \"stopped\" exactly once. A new server on the same directories goes on from the verified pieces and completes.",
  ["schedules", "histories"], "every step of several downloads as the moment of Stop, waits that never end (tracker, dial, handshake, write), all schedules within the bound",
  "There are no tests of this package; each goroutine waits at several places, each of which has to end.",
  P2P + ["p2p/multitracker.go"], [("contexts, Stop", "p2p/server.go"), ("cancelled waits", "p2p/peer.go")], ["p2p.Server.Start", "p2p.Server.Stop"], BOTH,
  "Left open: the order of \"started\" and \"stopped\" if Stop comes while Start announces itself.")

P("C30", "Peers are asked for proper blocks only, and not twice",
  "Every request names an actual block of the torrent, in a piece that this peer has announced and the server has not verified, is sent while the peer does not choke the server, and is not sent again to it while unanswered. A piece is fetched from one peer at a time, with at most 16 unanswered requests. After a choke has been processed, nothing is requested until the next unchoke.",
  ["schedules", "histories"], "every fault at every request, reorderings, several peers with the same pieces, all schedules within the bound",
  "There are no tests of this package; overlaps of attempts, chokes and completions depend on the schedule.",
  P2P, [("pieces in flight", "p2p/server.go"), ("requestPiece, requestBlock", "p2p/peer.go")], ["messages the server sends"], BOTH)

P("C31", "The rarest missing piece is asked for first",
  "When a peer is asked for its next piece, no missing piece that it has and that is not being fetched elsewhere is held by fewer of the currently connected peers than the one asked for. Peers count by what they have announced on connections that are still open.",
  ["inputs", "histories", "schedules"], "every distribution of up to four pieces among up to four peers, with peers leaving or announcing more, every random choice, all schedules within the bound",
  "There are no tests of this package; the order is only visible in the swarm.",
  P2P, [("sorting by rarity", "p2p/server.go"), ("index of peers by piece", "p2p/server.go")], ["order of the requests"], BOTH)

P("C32", "Trackers are asked in the order of BEP 12",
  "Each announcement goes through the tiers in order and through each tier's trackers one at a time, each once, until one answers; then it asks no other. The tracker that answered moves to the front of its tier and the others keep their order; no tracker is ever lost or doubled, also when announcements run concurrently. An announcement fails only if all trackers fail; the announce list, if there is one, replaces the single announce URL.",
  ["fault_sequences", "histories", "schedules"], "every shape of tiers with up to four trackers, every set of failing trackers in each of several rounds, every kind of failure, all schedules of concurrent announcements within the bound",
  "There are no tests of this package; order within tiers depends on the history of failures.",
  ["p2p/multitracker.go"], [("tiers and promotion", "p2p/multitracker.go")], ["requests at the trackers"], BOTH)

P("C33", "Trackers are told the truth in time, and cannot harm by what they answer",
  "Every announcement carries the info hash, peer id, port, event and the query of the announce URL unchanged, and uploaded, downloaded and left that are true at that time and never run backwards, for single and multi file torrents and after restarts. Announcements follow at the interval the tracker asked for, or a sane one. No answer, error, delay or silence of a tracker after the start ends the server, holds up its peers, or leaks a response; a first announcement that fails makes Start return an error.",
  ["inputs", "fault_sequences", "histories", "schedules"], "every sequence of downloads, uploads and failures with announcements between, every malformed answer at every position, intervals of every kind, all schedules within the bound",
  "There are no tests of this package; answers come from strangers, and numbers have to agree with a history.",
  ["p2p/multitracker.go", "p2p/server.go", "api/tracker/tracker.go"], [("Tracker.get", "p2p/multitracker.go"), ("Announce, every", "p2p/server.go")], ["requests at the trackers"], BOTH,
  "Left open: how many bytes of pieces that turned out wrong or incomplete count as downloaded.")

P("C34", "Peers that trackers list are dialed, whenever they are not connected",
  "Every peer of a tracker's response, IPv4 or IPv6, in either form, is dialed once at its exact address for each response that lists it (up to the 50 places), unless it is connected or being dialed; peers that refused, timed out, were rejected or left are dialed again when they are listed again. Dials that hang end in bounded time and do not keep others from being dialed forever; nobody else is dialed.",
  ["inputs", "histories", "schedules"], "every pair of peer behaviours in every sequence of up to three responses and each form, long lists, all schedules within the bound",
  "There are no tests of this package; bookkeeping of known, active and blocked peers has to agree over many connections.",
  P2P + ["api/tracker/tracker.go"], [("AddPeer, DialPeers, knownPeers", "p2p/server.go")], ["dials on a virtual network"], BOTH)

P("C35", "Peers are told exactly what the server has and wants",
  "The first message to a peer is a bitfield of the right length; together with later HAVE messages it names every piece the server has verified, promptly, and never one it has not, also for peers that connect while a piece completes and when other connections fail. The server tells its interest to every peer that has pieces it lacks, and withdraws it from peers that unchoke it when nothing is lacking.",
  ["schedules", "histories", "fault_sequences"], "every fault at every message, newcomers at every moment of a completion, all schedules within the bound",
  "There are no tests of this package; a piece that completes between the bitfield and the registration of a peer would never be announced to it.",
  P2P, [("Connect and the HAVE broadcast", "p2p/server.go"), ("Interest, NotInterest", "p2p/peer.go")], ["messages the server sends"], BOTH)

P("C36", "The HTTP tracker lists exactly the live peers of the torrent",
  "A well formed announcement is answered, in the form asked for, with every other peer of the same torrent that announced within the last minute and has not stopped, each once with its latest id, in compact form the IPv4 ones, and never the asking peer itself, however addresses are written; the interval keeps peers alive. Anything malformed or for an unknown torrent is answered with a failure reason and changes nothing; peers that went are forgotten.",
  ["inputs", "histories"], "every sequence of up to five announcements and waits of eight clients over two torrents, every malformed value of each parameter, in pairs",
  "There are no tests of this package; what is listed depends on a history of announcements and expiries.",
  ["pex/http.go", "api/tracker/tracker.go"], [("ServeHTTP", "pex/http.go"), ("expiry", "pex/http.go")], ["pex.HTTP.ServeHTTP"], SEQ,
  "Left open: peers that were heard of exactly a minute ago.")

P("C37", "Concurrent announcements to the HTTP tracker are linearizable",
  "Announcements that arrive at the same time, also while expired peers are removed, are answered as in some order of their arrival that respects which had been answered before others came; none is lost, nothing races or deadlocks.",
  ["schedules"], "all schedules within the bound of three clients with up to two announcements each and the cleaner",
  "There are no tests of this package, and HTTP servers call handlers concurrently.",
  ["pex/http.go"], [("locking of a torrent", "pex/http.go")], ["pex.HTTP.ServeHTTP"], SCHED)

P("C38", "A swarm of drip servers and the drip tracker completes everywhere",
  "Servers that announce themselves to the HTTP tracker find each other, and every one of them completes the torrent byte for byte, as long as each piece is with a server that stays or comes back: in whatever order they start and whoever dials whom, also each other at once; when connections break, servers stop, come back with another id or without their files, cannot be dialed, or the tracker is away for a while. Left undisturbed, each server downloads every byte it lacks once, and as much is reported as uploaded; two torrents at one tracker, also with servers that share their directories or peer ids, do not disturb each other. After all have stopped, no connection and no goroutine is left, and the tracker lists nobody.",
  ["histories", "schedules", "fault_sequences"], "every distribution of up to three pieces among two to four servers, every start order, pairs of torrents in every distribution, resets, stops and returns at every second of interest, all schedules and timer orders of small swarms within the bound",
  "There are no tests of these packages, let alone of servers that talk to each other: what one side does when it meets itself is not visible in tests of one side.",
  P2P + ["p2p/multitracker.go", "pex/http.go", "storage/storage.go"], [("Start, DialPeers, Connect", "p2p/server.go"), ("run loop", "p2p/peer.go"), ("ServeHTTP", "pex/http.go")], ["p2p.Server, pex.HTTP and storage.Storage together"], BOTH)

P("C39", "A failing disk costs a running server little, and nothing wrong gets out",
  "Whatever file operation fails while the server runs, once or for a while, or finds the disk full: the server keeps running, no peer is told of a piece that is not stored or served a wrong byte, and once operations succeed again every piece is completed and served in bounded time, also to peers that leech. A single failure costs at most one connection and one piece's download. What is stored survives: at the latest the next start finds the whole torrent and asks for none of it again; a start that meets the failure returns an error, and the next one works.",
  ["fault_sequences", "histories", "schedules"], "a failure of every file operation of five downloads in each way, alone and followed by four durations of a broken or full disk, all schedules of two of them within the bound",
  "There are no tests of this package; the failures happen in the middle of concurrent downloads and uploads.",
  P2P + ["storage/storage.go"], [("HandlePiece, HandleRequest", "p2p/peer.go"), ("coalesceBlocks, coalescePieces", "storage/storage.go")], ["p2p.Server on a failing file system"], BOTH)

P("C40", "Peers that left leave nothing behind",
  "Whatever peers sent, did or left undone: when they have left, the connections to them are closed, no goroutine that served them, waited for them or dialed them remains after three minutes, nor does the server keep anything else about them but whom it has blocked, and all fifty places are free again.",
  ["histories", "fault_sequences", "schedules"], "every hostile message in sequences, sessions cut at every byte, peers that do not read, faults at every request, strangers, listed peers of every kind, all schedules and timer orders of some downloads within the bound",
  "There are no tests of this package; a goroutine that waits for a peer that is gone is lost silently, one by one.",
  P2P, [("serve, requestBlock", "p2p/peer.go"), ("requestPieceFromPeer, DialPeers, Serve", "p2p/server.go")], ["p2p.Server, goroutines and connections"], BOTH)

P("C43", "Every peer that can help is put to use",
  "While pieces are missing, every connected peer that unchokes the server and has one of them that is not being fetched from another peer is asked for one within fifteen seconds of being able to give it, so that up to fifty peers are used at the same time and none waits for others that are slow, silent, choking or faulty. The blocks of a piece are asked for ahead rather than one by one, and no peers, however many, can keep a piece from being downloaded by getting and not giving it in turns, or over one connection after another.",
  ["histories", "schedules", "fault_sequences"], "every distribution of up to four pieces to two peers of four speeds, every fault of 16 at every request among two or three peers, pairs of hogs with an honest peer, up to 49 peers at once, all schedules of some within the bound",
  "There are no tests of this package; a peer left idle and a piece held in turns show only over minutes, with several peers of different behaviour.",
  P2P, [("RequestPieces, requestPieceFromPeer, fetchPiece", "p2p/server.go"), ("requestPiece", "p2p/peer.go")], ["p2p.Server under the schedules of its peers"], BOTH)

P("C44", "A failing network call ends no more than what it concerns",
  "Whatever network call of a running server fails, once or for a while (accepting, dialing, reading, a write of which only a part goes out, closing; for want of file descriptors or memory, or because the connection broke): the server keeps running and completes the torrent, a single failure costs at most one connection, nothing wrong is sent, and once calls succeed again peers are accepted, dialed and served as before. A start whose listening fails returns an error, and the next one works.",
  ["fault_sequences", "histories", "schedules"], "a failure of every network call of seven downloads and uploads in up to four ways, alone and followed by five durations in which nothing can be accepted or dialed, all schedules of three of them within the bound",
  "There are no tests of this package; the calls fail at moments no test can choose.",
  P2P, [("Serve, dialTCP, Start", "p2p/server.go"), ("send, serve", "p2p/peer.go")], ["p2p.Server on a failing network"], BOTH)

P("C41", "Storage leaves no open file and no litter",
  "Every storage call closes all files it opened before it returns, whether it succeeds or fails, at whatever file operation. It leaves no temporary file or directory behind in the work directory, only complete pieces, and temporary files of the torrent that a killed process left are gone once it has been loaded again; those of other torrents in the same work directory are not touched.",
  ["fault_sequences", "crash_points", "histories", "schedules"], "every operation, pair of operations and suffix of operations failing in every way, wrong blocks, resets and restarts, every kill point, three calls at once under all schedules within the bound",
  "No test injects an error, and neither open files nor leftovers show in results; a server that runs for weeks runs out of both.",
  ST, [("assembly of pieces and torrents", "storage/storage.go"), ("lazyFileReader", "storage/lazy_file_reader.go"), ("getBlockFrom...", "storage/storage.go")],
  ["storage.PutBlock", "storage.GetBlock", "storage.Load"], FAULT,
  "A file whose removal fails may stay.")

P("C42", "Torrents in the same directories do not mix",
  "Storages of different torrents (different info hashes and names, however alike they are) may share a work and a target directory, in one process or in several: whatever is put, reset, read, restarted or killed on one, at whatever moment, every other one holds, serves, counts and finishes exactly what it would if it had the directories for itself.",
  ["histories", "crash_points", "schedules"], "all sequences of puts, wrong puts, resets and restarts of two torrents up to five operations (thorough: six), info hashes that differ in any one digit, one killed at every change beside each stage of the other, both at once under all schedules within the bound",
  "The tests have one torrent in directories of its own; the collisions depend on what the two are and on when each one is at work.",
  ST, [("WorkDir", "storage/torrent.go"), ("Load, removeTemps, assembly", "storage/storage.go")],
  ["storage.New, Load, PutBlock, GetBlock"], FAULT)
