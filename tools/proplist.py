def M(*pairs): return [dict(name=a, where=b) for a, b in pairs]
TRUST = "Trusts go/types+go/ssa and the analyzer; reflection, unsafe and code outside the module are modelled by their documented behaviour. "

prop("C01", "Every lock is released on every exit and never re-acquired while held",
 "No entry point of the system ever returns (or hands control back to its event loop) while still holding a lock it acquired, acquires a lock it already holds, or releases a lock it does not hold in that mode; and any two locks are always taken in the same relative order. Nor does it wait on a channel for another goroutine while it holds a lock, in itself or in what it calls. Consequently no message, query or shutdown can block forever on a lock nobody will release.",
 ["schedules","inputs","histories"], "for every entry point, every path through it (error paths included) and every interleaving of goroutines",
 "The tests never drive the relay link, the websocket clients or the layered database concurrently or through their error exits; a leaked lock only shows on the next acquisition.",
 ["common/link/link.go","chain/icon/client/client.go","chain/icon/client/sender.go","common/db/layer_db.go","common/db/map_db.go","common/wallet"],
 M(("relay message lock","common/link/link.go"),("websocket registry lock","chain/icon/client/client.go"),("layer database locks","common/db/layer_db.go")),
 "interprocedural lock-state dataflow (typestate) on the inlined SSA flow graph + lock-order graph",
 TRUST+"Decides lock balance and ordering on all paths and channel waits under a lock (module interfaces resolved to all module implementations); does not decide starvation or network calls under a lock.")

prop("C02", "Mutable shared state is only touched under its owner's lock",
 "Every object that carries a lock is mutated only while that lock is held exclusively, and its mutable parts are read only while the lock is held, whatever goroutine, callback or query does it. Objects still private to the code constructing them are exempt.",
 ["schedules"], "for every interleaving of the relay, receiver, sender, monitor and query goroutines",
 "Data races need a particular interleaving; the test suite starts none of the goroutines that share these objects.",
 ["common/link/link.go","chain/icon/client/client.go","chain/icon/client/sender.go","chain/ethbr/client/sender.go","common/db/layer_db.go","common/db/map_db.go"],
 M(("relay link bookkeeping","common/link/link.go"),("websocket registry","chain/icon/client/client.go"),("in-memory and layered databases","common/db")),
 "lockset dataflow on the inlined SSA flow graph of every entry point and goroutine",
 TRUST+"Which fields are shared-mutable is derived from the code (any post-construction write); channel-based hand-over is not modelled as protection.")

prop("C11", "The outcome of every relayed message is followed and reported truthfully",
 "Every message the destination's node accepted (or already had) is followed by its own transaction until the destination gives a final answer; it counts as delivered only if the destination reports success. A revert is reported to the link with the message's own id and exactly the contract's code. Afterwards the destination's status is handed on only if it could be read, each field taken from the same field of the contract's answer for the source's link.",
 ["inputs","histories","fault_sequences"], "for every message, every answer of the destination's node and every failure of a request",
 "No test runs a sender against a node; a wrong outcome needs a particular error code, receipt status or failed request.",
 ["chain/icon/sender.go","chain/icon/client/client.go","chain/icon/client/error.go","chain/ethbr/sender.go","chain/ethbr/client/error.go"],
 M(("ICON sender: relay, poll, report","chain/icon/sender.go"),("Ethereum sender: relay, poll, report","chain/ethbr/sender.go"),("revert code mapping","chain/icon/client/error.go"),("link status","chain/icon/client/client.go")),
 "outcome analysis: path-sensitive dataflow on the SSA flow graph of the senders with the follow-up goroutine inlined, each outcome checked against the relation required between answer and report",
 TRUST+"Failures without a contract code are logged only (as upstream does) and are not claimed; that polling terminates is liveness and not decided.")
prop("C13", "A relayed message reaches the destination contract whole, in order, as itself",
 "A message that a relay call reports as sent was handed to the destination's node completely: either in one contract call, or as consecutive fragments without gap or overlap whose indices run -n, n-1, ..., 0, each sent only after the one before it was accepted. Every such transaction is a call to the destination's contract on the destination's network for the source's link, with the method, parameter names and encoding the contract expects. Every transaction is signed with the relay's wallet after its last change and sent as signed.",
 ["inputs","fault_sequences"], "for every message size and content, and every failure of a request",
 "No test sends through a sender; mistakes show only for messages larger than one transaction or sizes at a boundary.",
 ["chain/icon/sender.go","chain/icon/client/type.go","chain/ethbr/sender.go"],
 M(("ICON relay and fragmentation","chain/icon/sender.go"),("contract call parameters","chain/icon/client/type.go"),("Ethereum relay","chain/ethbr/sender.go")),
 "prefix-consumption analysis: abstract interpretation of the sender's SSA with the unsent rest and next index carried through loop phis as relational facts and linear-arithmetic entailment",
 TRUST+"The contract's side (reassembly in the BMC) is not analysed here; the size of the last fragment is not bounded.")
prop("C15", "A saved accumulator is always recoverable, whatever moment it is interrupted",
 "A tree node is written to storage under its own hash only after everything below it has been written, is considered stored only once that write succeeded, and the accumulator's recoverable state (its length, offset and roots) is written only after every root it names is stored. Any storage failure is reported to the caller, and recovering restores exactly the length, offset and roots that were saved, rejecting damaged data.",
 ["crash_points","histories","inputs"], "for every history of additions and saves, every storage failure and every crash point between two writes",
 "The tests save only to a memory store that never fails and is never interrupted; a state written before the nodes it names is only noticed after a crash.",
 ["common/mta/accumulator.go","common/mta/extaccumulator.go"],
 M(("node storage","common/mta/accumulator.go"),("state save/recover","common/mta/accumulator.go, extaccumulator.go")),
 "ordering/typestate dataflow and value-flow on the SSA flow graph (store-before-reference, saved-equals-restored)",
 TRUST+"Assumes the bucket contract of C17; atomicity of one Set is the backend's.")

prop("C16", "A Merkle proof is accepted only when it hashes to the expected root",
 "Whatever tree shape, position and proof bytes are given, a proof produced by the accumulator or the binary Merkle tree lists each sibling with the side it lies on, and verification combines the running hash and each sibling in exactly that order with the tree's own hash function. Verification succeeds only if the combination ends in the expected root, every supplied node is consumed consistently, and each node of a trie proof hashes to the reference held by its parent. The binary tree itself, made at once or content by content, is the same balanced tree with one leaf per content in order and every inner hash taken over its two children.",
 ["inputs"], "for every tree size, leaf position, witness and proof byte string",
 "Tests check a few sizes and indices; an order or gate error shows only for particular shapes or for crafted proofs.",
 ["common/mta/accumulator.go","common/mbt/path.go","common/mbt/proof.go","common/mbt/tree.go","common/mpt/mpt.go","common/crypto/hash.go"],
 M(("accumulator witness","common/mta/accumulator.go"),("binary Merkle tree","common/mbt"),("trie proof","common/mpt/mpt.go")),
 "path-sensitive value-flow on the SSA flow graph: producer/consumer side agreement and success-gate domination",
 TRUST+"Collision resistance of the hash is assumed; the arithmetic that splits an index into tree levels is checked structurally, not by induction over sizes.")

prop("C17", "Every storage backend honours the same contract",
 "In every backend, reading a missing key gives no value and no error, any other storage failure is reported as an error, and existence checks agree with reads. Reads, existence checks, writes and deletes of one bucket use the same physical key, made of the whole bucket id and the whole key, and what is stored is the exact value given, an empty value included and unaffected by later changes to the caller's buffer.",
 ["inputs","histories"], "for every backend, key, value, bucket and history of operations, including storage failures",
 "Tests exercise happy paths of each backend; storage errors, empty values, shared key prefixes and buffer reuse are not sampled.",
 ["common/db/badger_db.go","common/db/go_level_db.go","common/db/map_db.go","common/db/layer_db.go","common/db/bucket.go"],
 M(("bucket operations","common/db"),("physical keys","common/db/bucket.go")),
 "outcome analysis of every path of every bucket implementation against the outcome of the storage operation it delegates to",
 TRUST+"The third-party storage engines are modelled by their documented results.")

prop("C18", "The layered database isolates pending changes until they are flushed",
 "Until a writing flush, no change made through the layer reaches the parent database, while reads through the layer see the pending changes first (a pending delete hides the parent's value). A writing flush applies every pending change of every bucket by its kind and reports the first failure while keeping unapplied changes pending; a discarding flush applies none; after a flush, operations go straight to the parent.",
 ["histories","inputs"], "for every history of reads, writes, deletes and flushes, including failures while flushing",
 "The tests flush once over a store that never fails.",
 ["common/db/layer_db.go"], M(("layer buckets and flush","common/db/layer_db.go")),
 "effect analysis with path facts: which parent operations happen under which conditions; loop-coverage of pending entries",
 TRUST+"Assumes the bucket contract of C17 for the parent.")

prop("C04", "RLP items are framed alike by writer and reader",
 "A byte string is written as its own byte, or with the header and length bytes its length calls for, or as the null item if it is missing rather than empty; a list is written, when closed, with the header of what was put into it, to the writer it was opened on; a success is reported only after everything was written. Reading takes from the stream exactly the bytes an item's header announces and hands out exactly those; it refuses an item of the other kind, reports the null item and only it as missing, and never takes an item cut short for a whole one or for the end of the stream. Booleans, integers and strings are written as one byte string each and read back by the inverse conversion.",
 ["inputs","fault_sequences"], "for every byte string, list, value, tag byte and length, and every point at which the stream ends or the writer fails",
 "The codec has no stable tests here; headers differ only at particular lengths (55/56, one byte at 0x80), for null against empty, or when a stream ends inside an item.",
 ["common/codec/rlp.go"],
 M(("writing","common/codec/rlp.go: rlpWriter"),("reading","common/codec/rlp.go: rlpReader"),("values","common/codec/rlp.go: WriteValue, ReadValue")),
 "path-sensitive byte-content and interval analysis: every outcome of the writer gives its written bytes as segments, every outcome of the reader the bytes consumed and handed out, each checked against the header table for all lengths and tags of that path",
 TRUST+"The conversion of a length to and from its bytes (package intconv) is taken as correct; a list whose content is cut short at an item boundary is not claimed to be refused.")

prop("C05", "Structured values are encoded and decoded element by element",
 "The codec writes a struct as one list of its exported fields in order (the fields of embedded structs in place), a slice or array as one list of its elements in order (of bytes: as one byte string), a map as one map of key and value pairs sorted by key, a pointer or interface as what it holds, a nil one of these as the null item; a value that encodes itself does so, before its kind counts. Decoding is the mirror image: every element present is stored at its own place, however many there are, a null element becomes the zero value, a list that ends early leaves the remaining fields alone, elements left over are skipped, a value that decodes itself does so. Every list or map opened is closed before success is reported or anything else is written or read beside it, and an error of any step is reported. A kind without an encoding is refused, never a crash.",
 ["inputs","fault_sequences"], "for every kind of value, element kind, key kind, nil state, number of elements and every step that may fail",
 "The codec has no stable tests here; a wrong element, a lost element or an unfinished list shows only for particular shapes and counts (nil, empty, more than 16 elements, unexported or embedded fields, addressable or not).",
 ["common/codec/codec.go","common/codec/bytes.go"],
 M(("encoding","common/codec/codec.go: encoderImpl"),("decoding","common/codec/codec.go: decoderImpl"),("whole values","common/codec/bytes.go: bytesWrapper")),
 "operation traces (loops folded, errors classified) of the structured encoder and decoder per kind of value, element kind, key kind, addressability and nil state, compared with the sequence of reader, writer and reflect operations that kind requires, with an induction argument that loops visit every index",
 TRUST+"Package reflect is taken as documented. How single items are framed is C04; the MessagePack items are not claimed; the number of elements a list may have is not bounded.")

prop("C24", "Numbers, byte strings and addresses keep their value in text",
 "A number's text is its sign, 0x and its hexadecimal digits without leading zeros; reading takes exactly the digits after the sign and the prefix, and a number that does not fit the bits asked for, or text that is no number, is refused. The fixed-width number types read and write (JSON and RLP) exactly their value with exactly their width and signedness. Byte strings are written as all their bytes in hex, null if missing, and read back as exactly those bytes. An address text is hx or cx and the 20 bytes of the id and is read back as type byte and id, anything else is refused. Text that is too short or too long is refused, never a crash. The parts of a BTP address (protocol, network address, network id, blockchain, account) are exactly the parts between its separators, empty if there is no such part.",
 ["inputs"], "for every number, byte string, address and text",
 "Only a few of the conversions have tests, with a few values; a limit, a sign, an odd number of digits or a null matters only for particular texts.",
 ["common/intconv/string.go","common/hexint.go","common/hexbytes.go","common/types/btpaddress.go","chain/icon/client/type.go","chain/ethbr/client/type.go"],
 M(("number text","common/intconv/string.go"),("number types","common/hexint.go"),("byte strings","common/hexbytes.go"),("node values","chain/icon/client/type.go, chain/ethbr/client/type.go"),("BTP addresses","common/types/btpaddress.go")),
 "path-sensitive value analysis: for every outcome of every conversion, what is decoded or encoded is reduced to the part of the input it stands for (offset, prefix, padding) and compared with what the path's facts on sign, prefix, length parity and range require",
 TRUST+"Packages encoding/hex, encoding/json, strconv and math/big are taken as documented; the conversion of a machine integer to and from its bytes (loop arithmetic over digits, package intconv) is not claimed.")

prop("C12", "An error keeps its code, message and cause through every wrapping",
 "Every error made with a code (the code's New, Errorf, Wrap and Wrapf, Errorc, Errorcf, Wrapc, Wrapcf, NewBase, WithCode) answers exactly that code and exactly the given message (formatted with all its arguments; WithCode keeps the error's own), and every wrapping, with or without a code, keeps the wrapped error as its cause; wrapping without a code adds none. Looking for an error (Is) or a kind of error (AsValue, CoderOf) compares every error from the given one along its causes, in order, takes the first match and stores it, and answers no only at the end of the chain; a missing error or cause is no match, never a crash. CodeOf is the code of the outermost error that has one, UnknownError if none has; Equals is true exactly for an error of that code and never for none. The general codes are distinct and the base errors carry their own. Printing an error shows its code and message, and with + its cause.",
 ["inputs","histories"], "for every error, code, message and depth of wrapping",
 "The tests wrap two or three levels; a lost code or cause changes which recovery the relay takes, or crashes it, only for the one failure that was wrapped that way.",
 ["common/errors/errors.go"], M(("error makers","common/errors/errors.go"),("search along the causes","common/errors/errors.go"),("codes","common/errors/errors.go")),
 "outcome summaries of each constructor composed with the methods of the type it returns; loop invariant of the cause search (start, step, end) checked on the inlined SSA flow graph",
 TRUST+"The packages github.com/pkg/errors, fmt and reflect are taken as documented.")
prop("C08", "A failure on the relay's way is never swallowed",
 "Every error a call returns in the relay's start, the link, the receivers, the senders, the node clients, the key stores, the JSON-RPC client, the configuration file, the codecs and the proof structures is looked at. On every path on which the call failed, a function that itself can fail returns an error (or ends the process); one that cannot hands the error on (channel, callback, variable of its caller) or reports it in the log; going on without doing so is allowed only when the error was recognised as a particular kind, or when the same call is tried again and the failure was logged. No such function is started as a goroutine or deferred with its error dropped. (Closing, writing to a buffer, hash or console, and command-line flag handling are not meant.)",
 ["fault_sequences","inputs"], "for every failure of every call, in any combination",
 "No test makes a node, a link or a sender fail; a dropped error shows only when that one call fails, and then as a relay that silently stops delivering.",
 ["chain/icon/sender.go","chain/ethbr/sender.go","chain/icon/btp2/btp2.go","chain/icon/bridge/bridge.go","chain/ethbr/receiver.go","chain/icon/client/client.go","chain/ethbr/client/client.go","common/link/link.go","cmd/relay/main.go","common/wallet/keystore.go","common/jsonrpc/client.go","common/mta/ext_accumulator.go"],
 M(("relay link","common/link/link.go"),("receivers and senders","chain"),("node clients","chain/icon/client/client.go, chain/ethbr/client/client.go, common/jsonrpc/client.go"),("start","cmd/relay")),
 "path-sensitive dataflow of every error result (one obligation per call site): on every outcome and loop back edge where the error may be non-nil it is returned, handed on, logged or was classified; SSA def-use for errors never read",
 TRUST+"That the log or the receiver of the error acts on it is not decided; neither is whether retrying ends.")
prop("C06", "An ICON transaction's signature covers exactly what is sent",
 "Signing a transaction gives it a fresh timestamp and then signs, with the given wallet, the SHA3-256 hash of the method prefix followed by the canonical serialization of every field that is sent except the signature; nothing but the signature and the hash changes afterwards, and the hash recorded is the one signed. The canonical serialization writes every element: dictionary keys sorted and each with its value, list elements in order, separated by dots, nested structures in braces or brackets, null as its own mark, and every character with a meaning in the format escaped and no other. A value that cannot be serialized fails the signing.",
 ["inputs"], "for every transaction and every value of its parameters",
 "There is no test of the serializer; a missed escape or skipped field shows only for particular parameter values and then as a rejected or ambiguous transaction.",
 ["chain/icon/client/client.go","chain/icon/client/serialize.go"],
 M(("transaction signing","chain/icon/client/client.go"),("canonical serialization","chain/icon/client/serialize.go")),
 "byte-content dataflow: per-iteration write traces of the serializer's loops and the term structure of what is hashed and signed, checked case by case against the format",
 TRUST+"The escaped form of an empty first list element is ambiguous in the chain's own format and is not claimed.")
prop("C10", "The relay link never loses or miscounts what it has to deliver",
 "Every proof item obtained for the destination is put into exactly one outgoing message, counted with the number of its bytes against the sender's size limit (its limit minus its margin) and applied to the status the next item is built from; every outgoing message is built from one pending group, handed to the sender and remembered until then. Messages and source statuses are forgotten only when the destination's reported status covers both their height and their sequence, or the destination says the message was already verified. Every relay result leads to its own recovery (rebuild from the destination's current status, drop, or prove and send again) or is reported, never swallowed.",
 ["histories","schedules","inputs"], "for every history of source blocks, messages, destination statuses and relay results",
 "No test drives a link; losing an item takes a particular order of statuses, results and size overflows.",
 ["common/link/link.go","common/types/type.go"], M(("item bundling","common/link/link.go"),("pending messages and statuses","common/link/link.go"),("result handling","common/link/link.go")),
 "path-sensitive must-event analysis on the inlined SSA flow graph of the relay link (obligation per built item, group, message and result)",
 TRUST+"The builders behind the receiver interface are covered by C14; that the destination finally accepts a message (liveness) is not decided.")
prop("C09", "Each link reads its own source and signs for its own destination",
 "The relay runs exactly the links its direction asks for (front, reverse, both) and refuses any other direction. Each link watches its source's address and endpoint with the receiver for that chain and mode, and delivers to its destination's address and endpoint with the sender for that chain, signing with the destination's wallet; the error of a link that ends is what ends the relay. Each side's wallet is opened (or created) with that side's key store and password, the secret file taking precedence when one is named, and a wallet that cannot be opened stops the start.",
 ["inputs","fault_sequences"], "for every configuration of the two sides, direction and chain kinds, and every failure while starting",
 "No test starts the relay; a swapped side shows only in one direction or for one combination of chains.",
 ["cmd/relay/linkfatory.go","cmd/relay/main.go","common/link/link.go","chain/icon/sender.go","chain/ethbr/sender.go"],
 M(("link start","cmd/relay/linkfatory.go"),("wallets and passwords","cmd/relay/main.go"),("constructors","chain, common/link")),
 "path-sensitive value flow (taint by configuration side) on the inlined SSA flow graph of the relay's start, goroutines included",
 TRUST+"The sender options and log settings are not claimed; the meaning of an address's parts is taken from its accessor methods.")
prop("C07", "A key store opens only with its password and gives exactly its key",
 "Opening an ICON key store succeeds only if its coin type, cipher and key derivation are the supported ones, the MAC over the second half of the derived key and the whole ciphertext equals the stored one, and the key decrypted with the stored parameters has the stored address; the wallet is then exactly that key, and a failed opening gives no wallet. An EVM key store is opened with the given password by its own library and its failure is the failure of the opening. A saved key store holds a fresh random salt and initial vector, the very parameters that were used, and the ciphertext, MAC and address that opening expects, under the standard field names.",
 ["inputs"], "for every key store file, password and private key",
 "No test opens or saves a key store; a weakened gate accepts only crafted or damaged files, and a wrong parameter shows only when a saved store is opened elsewhere.",
 ["common/wallet/keystore.go","common/wallet/keystore_evm.go","common/crypto/key.go"],
 M(("opening","common/wallet/keystore.go"),("saving","common/wallet/keystore.go"),("EVM key stores","common/wallet/keystore_evm.go")),
 "path-sensitive value flow with byte-content terms: success gates of opening and part-by-part relation of what is saved",
 TRUST+"The ciphers, scrypt and the EVM key store library are assumed to do what they document.")
prop("C19", "Keys, signatures and addresses have exactly their format's bytes",
 "Signing accepts exactly digests of 1 to 32 bytes with a key; a signature is parsed exactly from 64 bytes (R,S) or 65 bytes (R,S,V or V,R,S) and written in each form with exactly these parts in that order; without a V value the forms with V, recovery and verification refuse, and verification accepts only what the curve accepts for exactly the given digest and key. Public keys are parsed from exactly 33 or 65 bytes and private keys from exactly 32, each kept as the same key, and an account address is the type byte 0 and the last 20 bytes of the SHA3-256 of the uncompressed key without its format byte. Addresses are read and written by their type and id in bytes and in hx/cx text, and a wallet signs, agrees on secrets (naming its key to the peer) and names its public key and address with its own key.",
 ["inputs"], "for every key, digest, signature and address given in any form and length",
 "The tests sign and recover with a few keys and lengths; the V,R,S form, the lengths refused, parity and the address derivation are not tested.",
 ["common/crypto/signature.go","common/crypto/key.go","common/address.go","common/wallet/wallet.go","common/wallet/wallet_evm.go"],
 M(("signatures","common/crypto/signature.go"),("keys","common/crypto/key.go"),("addresses","common/address.go"),("wallets","common/wallet")),
 "byte-position dataflow: every byte of each outcome traced to its source byte, every refusal to its condition",
 TRUST+"The elliptic curve and hash libraries are assumed to do what they document; ids longer than 20 bytes and sharing of buffers are not claimed.")

prop("C14", "A message proof covers exactly the destination's next messages",
 "A message proof built for a destination status starts right after the last sequence the destination has received and carries the messages that follow it in one received source block, in order and without a gap, up to the sequence the proof claims as its last; applying it to the status sets exactly that sequence and leaves the rest. No proof is built only when no received block has the next message (for a BTP block: none at the destination's verified height). The height given for a sequence is that of a received block having that message, and none only if no received block has it.",
 ["inputs","histories"], "for every destination status, size limit, and history of received blocks and of messages per block",
 "No test builds a proof; a gap, an overlap or a wrong last sequence shows only when a block is proven in several parts or resumed in its middle, and then the contract rejects or skips messages.",
 ["chain/icon/btp2/btp2.go","chain/icon/btp2/message.go","chain/icon/bridge/bridge.go","chain/icon/bridge/message.go","chain/ethbr/receiver.go","chain/ethbr/message.go"],
 M(("BTP block proofs","chain/icon/btp2"),("bridge proofs","chain/icon/bridge"),("Ethereum receipt proofs","chain/ethbr")),
 "path-sensitive value-flow with loop-list summaries and linear-arithmetic entailment: the messages put in the proof, the range proven and the sequence claimed are related symbolically on every outcome",
 TRUST+"The messages of one block have consecutive sequences (watching them is C21; for Ethereum the contract assigns them); how many messages fit the size limit is not claimed.")

prop("C20", "Block updates and relay messages hold exactly what was received and chosen",
 "Block updates are built for every received block still kept, in order and none twice, up to the size limit; each is for its own block's height, starts at the destination's verified height, carries the header and proof of that height where the destination needs them, and applying it sets that height and nothing else. A relay message for a BTP verifier holds the bytes of every item given, each under its own kind and in the order given; for a bridge it is the bytes of a message proof among the items, and empty only if there is none.",
 ["inputs","histories"], "for every destination status, size limit, history of received blocks and list of items",
 "No test builds block updates or relay messages from received blocks; a swapped kind or height is noticed only by the destination's contract.",
 ["chain/icon/btp2/btp2.go","chain/icon/btp2/message.go","chain/icon/bridge/bridge.go","chain/icon/bridge/message.go","chain/ethbr/receiver.go","chain/ethbr/message.go"],
 M(("block updates","chain/icon/btp2/btp2.go, chain/icon/bridge/bridge.go, chain/ethbr/receiver.go"),("relay messages","chain/icon/btp2/message.go")),
 "path-sensitive value-flow with loop-list summaries: each element appended to a result list is related to the loop's own element, and the loop must cover the list",
 TRUST+"Several message proofs in one bridge relay message are not claimed (only one is sent); header and proof contents are the node's.")

prop("C21", "Every notified source block is reported once, with its own messages",
 "Watching a source chain starts from the destination's verified height, for the right network, contract and event. Each notified block with something to report is kept and reported exactly once with its own height, all its messages for the destination that were not yet received in order with their own sequences, and the sequence of its last message, which the next block continues from. A block that cannot be fetched or decoded reports nothing and advances nothing; a kept block is forgotten only when the destination's status has reached both its height and its sequence.",
 ["inputs","histories","fault_sequences"], "for every sequence of notifications, answers of the source's node and failures of its requests",
 "No test watches a chain; skipped or repeated messages show only at particular offsets, after a failed request, or when a block holds several transactions.",
 ["chain/icon/btp2/btp2.go","chain/icon/bridge/bridge.go","chain/ethbr/receiver.go"],
 M(("BTP blocks","chain/icon/btp2/btp2.go"),("bridge blocks","chain/icon/bridge/bridge.go"),("Ethereum logs","chain/ethbr/receiver.go")),
 "interprocedural value-flow: the subscription and the notification callback are summarised together, captured variables resolved at the subscription, each outcome checked against what must be kept and reported",
 TRUST+"Delivery of notifications (reconnects, and callback errors that the ICON client only logs) and restarts in the middle of a BTP block are not claimed.")

prop("C22", "A request to a node succeeds only with the node's own answer to it",
 "A JSON-RPC request is reported as successful only if it was sent with the method and parameters given, the HTTP status is OK, the body was decoded, it holds no error, and its result was decoded into the caller's result; every other outcome is an error that says so. Each query of the ICON and Ethereum clients asks the node for what it is named after, with the caller's parameters, hands out the node's answer and fails whenever the request failed. The reason of a reverted Ethereum transaction is the message of repeating that transaction's own call, and is empty if the repetition does not fail.",
 ["inputs","fault_sequences"], "for every answer of a node, failure of a request and parameter",
 "No stable test talks to a node; an error taken for an empty answer looks like a block without messages or a transaction without failure.",
 ["common/jsonrpc/client.go","chain/icon/client/client.go","chain/ethbr/client/client.go"],
 M(("JSON-RPC","common/jsonrpc/client.go: Client.Do"),("ICON queries","chain/icon/client/client.go"),("Ethereum queries","chain/ethbr/client/client.go")),
 "path-sensitive value-flow over every outcome of the request functions: what was asked, which failures the path has ruled out, and whether what is handed out is the memory or value the answer was decoded into",
 TRUST+"The HTTP, JSON and go-ethereum libraries do what they document; contents of answers are the node's. Status queries of the link are part of the property on outcomes.")

prop("C23", "Watching hands each notified block over once, in order, and ends with an error",
 "Watching an ICON node connects to the stream of what is watched, sends the caller's request, and begins only if the node accepts it; each notification is decoded into a value of its own and handed to the watcher once before the next is read, a failed read ends the watch with that error, and the watch ends without an error only when its connection was closed by the caller. However a watch ends, its connection is closed and no longer registered. Watching an Ethereum chain hands over each block from the requested height up to the first one seen, in order and none skipped, and then each one notified or, when polling, each next height once it is there, with that block's own header, hash, height and logs under the requested filter; a block that cannot be fetched while catching up, logs that cannot be fetched, or a watcher that fails end the watch with that error.",
 ["inputs","histories","fault_sequences"], "for every sequence of notifications, refusal of a request, failure of a connection or query, and error of the watcher",
 "No test watches a node; a skipped, repeated or mixed-up block shows only after a particular failure or when the relay starts behind the chain.",
 ["chain/icon/client/client.go","chain/ethbr/client/client.go"],
 M(("ICON streams","chain/icon/client/client.go: Client.Monitor and the functions it calls"),("Ethereum blocks","chain/ethbr/client/client.go: Client.MonitorBlock, Monitor, Poll")),
 "typestate over every path of the watch methods, with helpers, deferred calls and callbacks inlined: phases of the watch and of the height are carried through the loops and checked at every read, request, hand-over, step and end",
 TRUST+"The websocket, JSON and go-ethereum libraries do what they document. Errors the ICON watcher's callback returns are only logged by the client and are not claimed; nor is what happens when a polling chain's node answers with a header of another height.")

prop("C90", "Every message sent on the source is eventually delivered, exactly once",
 "Every message accepted by the source's message center is at some time executed by the destination's, exactly once and in order, as long as the relay runs, both nodes answer and the relay's account can pay.",
 ["schedules","histories","fault_sequences"], "for every history of both chains, every restart and every loss of a connection",
 "It is a liveness property of three systems together; the tests run none of them.",
 ["common/link/link.go","chain"], M(("relay loop","common/link/link.go")), "", "",
 na="Liveness over unbounded time and over two external chains: whether a loop that asks the node again ever gets its answer, and what the contracts accept, is not in the source analysed. The safety parts that are (nothing dropped, skipped, sent twice by the bookkeeping) are C09-C11, C13, C14, C20, C21, C23.")
prop("C91", "No proof is accepted for data that is not in the tree",
 "No sequence of siblings or nodes makes a Merkle or trie verifier accept a leaf, key or value that is not the one committed to by the root.",
 ["inputs"], "for every root, proof and claimed value",
 "The claim quantifies over all inputs of a hash function.",
 ["common/mta","common/mbt","common/mpt"], M(("verifiers","common/mta, common/mbt, common/mpt")), "", "",
 na="Unforgeability rests on collision resistance of the hash functions, a computational assumption no static argument decides. The structural part (which bytes are hashed, in which order, and that the comparison gates acceptance) is C15 and C16.")
prop("C92", "Integers survive conversion to bytes and back for every value",
 "Converting any integer to its shortest two's-complement or unsigned byte form and back gives the same integer.",
 ["inputs"], "for every integer",
 "Only boundary values are sampled.",
 ["common/intconv/bytes.go"], M(("digit loops","common/intconv/bytes.go")), "", "",
 na="The loops shift and test digits of runtime values; their correctness is an arithmetic induction that needs a theorem prover or bounded solving, both outside this family. The text conversions around them are C24, the codec that uses them C04 and C05.")
prop("C93", "The on-chain contracts keep the message protocol",
 "The message center, verifier and service contracts (Java, Solidity, Python) accept exactly the relay messages the protocol allows and keep sequence numbers, fees and links consistent.",
 ["inputs","histories"], "for every transaction",
 "They are not built or tested here.",
 ["javascore","solidity"], M(("contracts","javascore, solidity, pyscore")), "", "",
 na="The contracts are not part of the Go build given here, and no compiler or type-checked front end for them (javaee SDK, solc) is installed offline; a text-level lint could not decide behaviour.")

prop("C25", "Passwords and private keys never leave the relay in the clear",
 "No key-store password, content of a password file, private key, or text or encoding made from one of them ever reaches a log, the console, an error, a file, the environment or a request; a private key leaves its wallet only as signatures, public key and address, and is written only encrypted. The configuration is saved only after both passwords were emptied, on every path; a key store saved to a file of its own is readable by its owner only.",
 ["inputs","configurations","fault_sequences"], "for every configuration, key and password, and every failure on the way",
 "No test looks at what is logged, reported or saved; a leak shows only in the message of one failure or in one saved file.",
 ["cmd/relay/main.go","common/wallet/keystore.go","common/wallet/wallet.go","common/wallet/wallet_evm.go","common/crypto/key.go","common/cli/helper.go"],
 M(("saving the configuration","cmd/relay/main.go"),("key stores","common/wallet/keystore.go"),("wallets","common/wallet")),
 "interprocedural taint analysis over SSA with parameter-polymorphic summaries (field-based memory, JSON and print reachability of types, sanitisers: encryption, hashing, signing), plus a must-analysis that passwords are emptied before the configuration is encoded",
 TRUST+"Errors of libraries are taken not to quote their arguments; values passed through reflection other than encoding/json and fmt, and through function values kept in data structures, are not followed.")

prop("C26", "Every log record goes where its level and the configuration say",
 "A record the logger lets pass is shown on the console exactly if it is not more detailed than the level set for its module (the module it names, else the package that logged it) or, if none was set for it, than the console's level; when a log file is set, the record goes to it once and whole whatever the console shows. A line carries the record's level, time, message and every field. Setting a level, file or hook through a logger sets exactly that, is what is answered afterwards, and the package's functions are the global logger's of the same name; a level's name means that level and any other name is refused. A forwarder is set up for the vendor and address configured and gets the records of its level and the graver ones, with all their fields and without changing them for others. At the start the log file (a relative path being relative to the configuration file), the levels, the module levels and the forwarder are those configured, and an invalid one ends the start.",
 ["inputs","configurations"], "for every record, logger and log configuration",
 "No test logs through the filter or starts the relay; a lost record shows only for one combination of levels, module and file.",
 ["common/log/filter.go","common/log/log.go","common/log/formatter.go","common/log/forwarder.go","common/log/writer.go","common/config/fileconfig.go","cmd/relay/main.go"],
 M(("log filter","common/log/filter.go"),("loggers and levels","common/log/log.go"),("forwarder","common/log/forwarder.go"),("set-up","cmd/relay/main.go")),
 "outcome summaries over SSA (path-partitioned abstract interpretation with facts): on every path of the filter the fate of the record follows from the comparison made, and every setter, the start's set-up and the forwarder's hook does exactly what is asked",
 TRUST+"logrus, lumberjack and the hook libraries are trusted; only the plain form of the package-name helper is judged; forwarder levels collected by a loop are not judged.")
