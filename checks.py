"""What each check runs.  `python3 checks.py` rewrites properties.jsonl and MANIFEST.json from this file."""
import json, os
STUBS = {
    "clock": "time(), clock_gettime() and the sleep calls read a simulated clock with settable epoch, jumps and drift",
    "threads": "pthread threads, mutexes, conditions and once-control are scheduled by the simulator (one runs at a time, switches at any memory access, call or lock)",
    "alloc": "malloc family (also cJSON's) forwards to the real allocator under AddressSanitizer, with injected failures and accounting",
    "rng": "RAND_bytes / getrandom / mbedTLS CTR-DRBG give seeded bytes, with injected failures",
    "lws": "libwebsockets is a simulated client network: connect, handshake, fragments, writes, loss, close; same callback protocol",
    "relay": "the relay is a scripted server inside the simulator",
    "crypto": "OpenSSL calls run the real OpenSSL, with injected failures",
    "noscrypt": "noscrypt (absent here) is replaced by an equivalent built on libsecp256k1 and OpenSSL",
    "kdf": "in most runs EVP_PBE_scrypt is replaced by a fast keyed stand-in with the same interface (real scrypt in the rest)",
    "env": "environment variables come from a simulated environment",
}
LIB = "all library sources of /repo's working tree, compiled unmodified"
SECP = "libsecp256k1 (real)"
CJ = "cJSON (real, allocations injected)"
NET = ["clock", "threads", "alloc", "lws", "relay"]
ASSUME_NET = ["the simulated websocket library follows libwebsockets' documented client callback order; it accepts a serialised write from any thread",
              "connect, disconnect and destroy of one relay are not called concurrently with each other or from inside that relay's callbacks"]
P = []
def prop(id, title, statement, over, quant, why, files, mech, variants=("ossl",), runs=9000, time=30, rule="", real=None, stub=(), assume=(), technique="deterministic simulation with fault injection", note="", thorough_time=900, gate=24):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, variants=list(variants), runs=runs, time=time, rule=rule, real=real or [LIB, SECP, CJ], stub=list(stub), assume=list(assume), technique=technique, note=note, thorough_time=thorough_time, gate=gate))

prop("C01", "A relay handle is safe across its whole life",
     "Whatever order an application connects, sends, subscribes, disconnects, reconnects and destroys relay handles in, and whatever the network or the operating system refuses meanwhile, no freed memory or handle is used, nothing deadlocks, and no callback runs once a disconnect has returned success or a destroy has returned. A connection attempt that fails, a disconnect and a destroy each leave behind no service thread, no websocket context and, after destroy, no memory.",
     ["schedules", "histories", "fault_sequences"], "Every interleaving of one or two application threads with the service thread, every order of API calls, and every combination of refused, silent or dropped connections with failing allocations, thread creation, mutex creation and websocket calls.",
     "The tests only create and destroy handles and call the API without a live connection; no test runs the service thread, loses a connection or fails an allocation.",
     ["src/relay.c", "include/nostr.h"], [("connection set-up and its error paths", "src/relay.c nostr_relay_connect"), ("stopping and joining the service thread", "src/relay.c nostr_relay_disconnect"), ("service thread callback", "src/relay.c callback_nostr_relay"), ("destroy", "src/relay.c nostr_relay_destroy")],
     rule="The seed decides 3-16 API calls per application thread, the callbacks' own API calls, connection outcomes and lifetimes, every thread switch and the injected failures; checked at every call: memory errors (AddressSanitizer), lock misuse, deadlock, callbacks after disconnect, live threads, contexts and allocations.", stub=NET, assume=ASSUME_NET)
prop("C02", "Reported relay state matches the connection; a relay is always recoverable",
     "Once activity settles, the state a relay handle reports equals the real state of its connection, each established connection is announced exactly once, each loss or failed attempt is reported once, and never two connections exist for one handle. A connect goes to exactly the host, port, scheme and path of the relay's URL, a lost connection is retried at the documented pace but never after an explicit disconnect, sends succeed exactly when a connection is open, and after faults stop the relay can always be connected and used again.",
     ["schedules", "histories", "fault_sequences"], "Every history of connect, disconnect, send and waiting against every pattern of refused, silent, dropped and re-established connections, failing websocket and thread calls, and thread schedule.",
     "Tests never hold a live connection, so the state machine driven by the network thread, the reconnect timer and error callbacks is not executed at all.",
     ["src/relay.c", "include/nostr.h"], [("state changes and reconnect", "src/relay.c callback_nostr_relay"), ("URL parsing and connection set-up", "src/relay.c nostr_relay_connect"), ("disconnect", "src/relay.c nostr_relay_disconnect")],
     rule="The seed decides 3-16 operations, the URL, connection outcomes, delays and lifetimes and thread switches; the reported state is compared with the simulated network whenever the service thread is idle, every state callback against the network at that instant, and recovery is required within a bounded number of attempts once faults stop.", stub=NET, assume=ASSUME_NET)
prop("C03", "Every relay message reaches its callback once, whole and in order",
     "Each protocol message a relay sends on an open connection is handed to the matching callback exactly once, in the order sent and with unchanged content, however it is cut into frames and chunks, spelled or spaced, and whichever callback pair is being installed at that moment. A malformed or oversize message, one that cannot be buffered, or one cut off by a lost connection is dropped by itself: it is never delivered altered or glued to another, and every later message still arrives.",
     ["inputs", "schedules", "fault_sequences"], "Every sequence of valid and malformed messages, every fragmentation, size and white space, every thread schedule, allocation failure and connection loss.",
     "No test feeds bytes through the websocket callback; fragmentation, junk between messages, allocation failure and reconnect in mid-message are never exercised.",
     ["src/relay.c", "src/event.c"], [("receive buffer and message framing", "src/relay.c callback_nostr_relay"), ("message callback dispatch", "src/relay.c notify_message"), ("event parsing", "src/event.c nostr_event_from_json")],
     runs=9000, rule="The seed decides 1-14 messages (EVENT, OK, EOSE, NOTICE, CLOSED, AUTH, COUNT; spelling, spacing, size up to 300 kB, rarely above 10 MB), junk between them, fragmentation, timing, callback swaps, allocation failures on the service thread or a connection loss in mid-message; callbacks are compared with the list sent.", stub=NET, assume=ASSUME_NET + ["a protocol message never spans two websocket messages"])
prop("C04", "Subscriptions behave as one atomic registry",
     "Subscribing, unsubscribing and relay-side closing of subscriptions, from any threads and from inside event callbacks, behave as if they took effect one at a time: an event is delivered to exactly one callback if its subscription is registered at that moment, to none otherwise, and never to the callback of another or an earlier subscription with that id. A subscribe that fails registers nothing, one that repeats an id replaces the earlier callback, and the registrations always agree with the last request sent to the relay.",
     ["schedules", "histories", "fault_sequences"], "Every interleaving of up to three application threads, callbacks and the service thread over up to three subscription ids, with failing writes and allocations.",
     "Tests never have two threads on a subscription list, never deliver an event to one, and never fail the write of a request.",
     ["src/relay.c"], [("registration", "src/relay.c nostr_subscribe"), ("removal", "src/relay.c nostr_relay_unsubscribe"), ("dispatch", "src/relay.c callback_nostr_relay")],
     rule="The seed decides the operations, event and CLOSED traffic, faults and schedule; the recorded history of each id is checked for linearizability against a one-slot register, and probe events compare the registrations with the last request on the wire.", stub=NET, assume=ASSUME_NET, technique="deterministic simulation with fault injection; linearizability check of the recorded history")
prop("C05", "A request is sent exactly when it succeeds, and exactly as asked",
     "Publishing an event, subscribing and unsubscribing put exactly one well-formed text message carrying exactly that event, subscription id and filters on that relay's connection if they report success, and none if they report failure. Subscription ids or filters that would change the message around them are refused.",
     ["inputs", "schedules", "fault_sequences"], "Every event, id and filter text, one to three relays and application threads, with failing allocations and writes and connections lost at any moment.",
     "No test looks at what is written to a connection, let alone under concurrency, memory exhaustion or connection loss.",
     ["src/relay.c", "src/event.c"], [("event publication", "src/relay.c nostr_relay_send_event"), ("subscription request", "src/relay.c nostr_subscribe"), ("close request", "src/relay.c nostr_relay_unsubscribe"), ("event serialisation", "src/event.c nostr_event_to_json")],
     rule="The seed decides relays, threads, requests (valid and hostile), faults, losses and schedule; every frame on the simulated network is matched, as JSON, with the call that reported sending it.", stub=NET, assume=ASSUME_NET)

prop("C06", "Relays built on the library converge and answer alike",
     "Relays that check, keep and serve events with this library agree, whatever the network, disks and clocks did: after faults stop and events are exchanged, every relay shows exactly the valid, unexpired, undeleted events accepted anywhere, keeping only the newest (lowest id on a tie) of each replaceable or addressable group, in whatever order they arrived. Each client message is read as what it says or refused, each filter matches exactly the events it describes, each deletion affects only its author's listed events and addresses, and each reply says exactly what was meant.",
     ["inputs", "schedules", "fault_sequences", "crash_points"], "Every set of events, deletions, expirations, filters and client messages, every delivery order with loss, duplication, delay and partition, every crash, torn or corrupted record, clock skew and allocation failure.",
     "Tests check single calls on a few hand-written events; none combines arrival orders, ties, deletions, expiry, skewed clocks, crashes and queries.",
     ["src/relay_protocol.c", "src/relay_filter.c", "src/relay_message.c", "src/event.c", "include/nostr_relay_protocol.h"], [("filters", "src/relay_filter.c nostr_filter_parse, nostr_filter_matches"), ("client and relay messages", "src/relay_message.c nostr_client_msg_parse, nostr_relay_msg_serialize"), ("validation", "src/relay_protocol.c nostr_event_validate_full"), ("replacement order", "src/relay_protocol.c nostr_event_compare_replaceable"), ("deletion", "src/relay_protocol.c nostr_deletion_parse, nostr_deletion_authorized_address"), ("kinds and expiration", "src/relay_protocol.c nostr_kind_get_type, nostr_event_is_expired")],
     runs=6000, rule="The seed decides one to three relays and one or two clients as threads, their messages (valid and not), network loss, duplication, delay and partitions, crashes with torn or corrupted records, clock skews, allocation failures and thread switches; every parse, verdict, match, view, answer and reply is compared with a reference model when it happens, and all relays with the reference fold after faults stop.",
     stub=["clock", "threads", "alloc"], assume=["the relay around the library (storage, routing) is the simulator's; it uses only library calls to decide"])

prop("C07", "What is signed verifies everywhere unchanged; nothing else does",
     "An event that was signed successfully carries its NIP-01 id, its author's key and a valid signature, drew fresh randomness, and verifies in every thread and after every transport as JSON, which carries each field exactly. An event altered in any field, in memory or in transit, never verifies. Whatever fails meanwhile (memory, randomness, the crypto library, initialisation), signing and verifying never report success wrongly, change nothing else, leave nothing behind and succeed when retried.",
     ["inputs", "schedules", "fault_sequences"], "Every event content, key and alteration, every interleaving of threads that sign and verify shared events with clean-up in between, and every failing allocation, random draw and crypto call.",
     "Tests sign a few fixed events in one thread with everything working; none corrupts a transport, fails a random draw or a crypto call, or races on initialisation.",
     ["src/event.c", "src/key.c", "include/nostr.h"], [("id", "src/event.c nostr_event_compute_id"), ("signature", "src/event.c nostr_event_sign"), ("verification", "src/event.c nostr_event_verify"), ("JSON", "src/event.c nostr_event_to_json, nostr_event_from_json"), ("context", "src/key.c nostr_init, nostr_cleanup")],
     variants=['ossl', 'mbed', 'nos', 'min'], runs=6000, rule="The seed decides one to three threads, their events, keys (valid and not), alterations, JSON spelling and corruption, injected failures and thread switches; ids, signatures and verdicts are compared with an independent NIP-01 and BIP-340 reference after every call, and memory and crypto contexts are accounted.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"])

prop("C08", "Keys are fresh, valid, matching and exact, or there are none",
     "Every generated private key is a fresh draw from the random source, valid and never handed out twice, whatever threads run at once; every key pair marked as initialised holds a valid private key and its own public key, and a pair, hex text or shared secret is produced only from valid input, exactly. When the random source, memory or the crypto library fails, or gives unusable values, the call fails, hands out no usable or partial key, and works again afterwards. Destroyed pairs hold nothing; validation accepts exactly matching pairs; ECDH yields the shared x-coordinate to both sides.",
     ["inputs", "schedules", "fault_sequences"], "Every key, hex text, buffer size and peer key, every interleaving of threads that draw randomness, and every pattern of failing, partial or unusable random draws and crypto calls.",
     "Tests use a few fixed keys in one thread and cannot make the random source fail, stop half-way or return values that are no private key.",
     ["src/key.c", "src/utils.c", "include/nostr.h"], [("random source", "src/key.c nostr_random_bytes"), ("generation", "src/key.c nostr_key_generate"), ("key pairs", "src/key.c nostr_keypair_generate, nostr_keypair_from_private_key, nostr_keypair_validate"), ("hex", "src/key.c nostr_key_from_hex, src/utils.c nostr_hex_decode"), ("shared secret", "src/key.c nostr_key_ecdh")],
     variants=("ossl", "mbed", "nos"), runs=12000, rule="The seed decides one to three threads, their operations and inputs, the draws that fail, stop half-way or are not usable, failing crypto calls and thread switches; every result is compared with libsecp256k1 used directly, the log of random draws and all keys handed out before.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"])
prop("C09", "The active configuration is one atomic, always valid value",
     "From any number of threads and from inside the change callback, the active configuration behaves as one atomic register: what is read is always whole, valid and exactly what one accepted call set, in an order all threads agree on; an invalid configuration is refused and changes nothing, and of several initial configurations one wins. Each successful update runs the registered callback once with the value it replaced and the value it set. The environment supplies decimal numbers or nothing, and the limits on content, tags and tag values apply to what is parsed and built.",
     ["inputs", "schedules", "histories", "fault_sequences"], "Every history of initialisation, updates, reads and callback changes by up to four threads and by callbacks, every configuration, environment and event size around a limit.",
     "Tests set one configuration in one thread; none reads while another thread writes, uses the library from the callback, or sets hostile environment values.",
     ["src/config.c", "src/event.c", "include/nostr.h"], [("update and callback", "src/config.c nostr_config_update"), ("read", "src/config.c nostr_config_get_current"), ("initial configuration", "src/config.c nostr_init_with_config"), ("environment", "src/config.c nostr_config_load_env"), ("validity", "src/config.c nostr_config_validate"), ("limits", "src/event.c nostr_event_add_tag, nostr_event_from_json")],
     runs=14000, variants=['ossl', 'min'], rule="The seed decides threads, operations, configurations, environment, callback behaviour and switches; the history of reads, updates and callbacks is checked for linearizability as a register with distinct writes, and validity, environment and limits against a reference.",
     technique="deterministic simulation with fault injection; linearizability check of the recorded history", stub=["clock", "threads", "alloc", "env"])
prop("C10", "The library can be initialised, cleaned up and first used from any threads",
     "Initialisation, clean-up and the first use of the library may happen in any threads in any order: at most one crypto context exists, success means the library is usable, every use finds it initialised or initialises it, a failed initialisation leaves nothing behind and can be retried, and after clean-up nothing remains. Nothing uses a context that does not exist or was destroyed.",
     ["schedules", "fault_sequences", "histories"], "Every interleaving of up to four threads that initialise, clean up and (with no clean-up running) use the library for the first time, with failing context creation and randomness.",
     "Tests initialise once at start; no test races two initialisations, fails one, or uses the library after a clean-up.",
     ["src/key.c", "src/config.c", "src/event.c", "src/hd_key.c"], [("initialisation", "src/key.c nostr_init, src/config.c nostr_init_with_config"), ("clean-up", "src/key.c nostr_cleanup"), ("first use", "src/key.c nostr_key_generate, src/event.c nostr_event_sign, src/hd_key.c nostr_hd_key_from_seed")],
     variants=("ossl", "mbed", "nos"), runs=12000, rule="The seed decides phases of concurrent initialisation and clean-up or initialisation and use, failures and thread switches; crypto contexts are counted and every crypto call checks that its context is alive.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["no thread uses keys or events while another cleans up"])
prop("C11", "Recovery phrases and derived keys are exactly BIP-39's, BIP-32's and NIP-06's, or nothing",
     "Every generated phrase is a valid BIP-39 phrase made from a fresh random draw and fits its buffer; a phrase is accepted exactly when its words and checksum are right; seeds, master keys, children (also derived in place), paths and accounts give exactly the keys BIP-39, BIP-32 and NIP-06 define, and what is not a path or index is refused. Whatever fails meanwhile, no wrong, partial or mismatched key, phrase or key pair is left behind, nothing leaks, and the first call of the process works too.",
     ["inputs", "schedules", "fault_sequences"], "Every entropy, phrase, passphrase, seed length, index, path text and buffer size, from one to three threads, with failing memory, randomness and crypto calls.",
     "Tests check a few published vectors with everything working.",
     ["src/hd_key.c", "src/data/bip39_english.h"], [("phrase generation", "src/hd_key.c nostr_mnemonic_generate"), ("phrase check", "src/hd_key.c nostr_mnemonic_validate"), ("seed", "src/hd_key.c nostr_mnemonic_to_seed"), ("derivation", "src/hd_key.c nostr_hd_key_derive, nostr_hd_key_derive_path"), ("account key", "src/hd_key.c nostr_mnemonic_to_keypair")],
     variants=("ossl", "mbed", "nos"), runs=5000, rule="The seed decides threads, operations, inputs (valid, boundary and malformed), failures and switches; results are compared with an independent BIP-39/BIP-32/NIP-06 reference.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["phrases separate words by single spaces, paths have no empty components"])
prop("C12", "NIP-19 and NIP-21 identifiers name exactly what they were made from, or nothing",
     "Encoding a public key, secret key, event id, profile, event pointer, address or relay as bech32 text or as a nostr: URI gives the one text NIP-19 defines, whole and within the given buffer, or an error; decoding accepts a text exactly when prefix, alphabet, checksum and content are right, and gives back every relay, author, kind and identifier (unknown entries are skipped, wrong relays left out), so what one side writes the other reads unchanged and a corrupted text is refused. No text, buffer size or failing allocation makes it read or write out of bounds, leak, or hand out pointers to freed memory; freed identifiers are wiped.",
     ["inputs", "schedules", "fault_sequences"], "Every entity, buffer size, corrupted, truncated, forged or over-long text, from one to three threads, with failing memory at any allocation.",
     "Tests encode and decode a few well-formed samples with everything working.",
     ["src/bech32.c", "src/nip21.c"], [("bech32 text", "src/bech32.c nostr_key_to_bech32, nostr_key_from_bech32, bech32_convert_bits"), ("entities", "src/nip21.c build_tlv, parse_tlv"), ("URI", "src/nip21.c nostr_uri_parse, nostr_uri_encode, nostr_uri_free")],
     variants=("ossl",), runs=7000, rule="The seed decides entities, threads, corruption in transit, forged texts, buffer sizes, failing allocations and thread switches; results are compared with an independent bech32 and NIP-19 reference.",
     stub=["clock", "threads", "alloc"], assume=["a text with repeated or wrong-length entries, or longer than 4096 bytes of data, may be refused or read either way", "upper-case bech32 text is not claimed"])

prop("C13", "A mined event carries the work it claims",
     "Mining, alone or with any number of worker threads, either leaves an event whose id is the hash of its content, has at least the wanted number of leading zero bits, and carries a nonce tag with the nonce used and the difficulty aimed at, dated within the mining, or reports failure; it says there is no solution only after trying every nonce it was allowed, and never hides a failed worker. Verification accepts exactly the events whose id reaches the difficulty asked for and the one they commit to. Mining and setting a nonce change nothing else in the event, whatever fails, and leave no thread or memory behind.",
     ["inputs", "schedules", "fault_sequences"], "Every event, difficulty, number of workers and limit, every interleaving of workers and of a clock that jumps, and failing allocations and thread or mutex creation.",
     "Tests mine a few small events with a working machine; no test controls which worker wins, fails a worker or moves the clock.",
     ["src/nip13.c"], [("single-threaded mining", "src/nip13.c nostr_nip13_mine_event"), ("threaded mining", "src/nip13.c nostr_nip13_mine_event_threaded"), ("nonce tag", "src/nip13.c nostr_nip13_add_nonce_tag"), ("verification", "src/nip13.c nostr_nip13_verify_pow, nostr_nip13_calculate_difficulty")],
     variants=['ossl', 'mbed', 'min'], runs=7000, rule="The seed decides events, difficulties, worker counts, limits, clock jumps, failures in the caller and in the workers, and every thread switch; a mined event is recomputed independently, and a report of no solution is checked by trying the same nonces.",
     stub=["clock", "threads", "alloc"], assume=["difficulties up to 8 are mined, up to 256 verified"])

prop("C14", "An event under construction changes exactly as asked, or not at all",
     "Whatever sequence of creating, setting content, adding tags, setting an expiration, computing the id and writing or reading JSON an application performs, the event always holds exactly what the successful calls put there, and a call that fails changes nothing: content and tags of any length keep their bytes and order, the id, the JSON text and the canonical form are the ones NIP-01 defines for the fields, sized buffers and returned lengths are exact and never overrun, every accessor and iterator shows those same fields, and JSON is read back to them or refused. Nothing leaks or is used after it was freed, and many threads may read one event.",
     ["inputs", "histories", "fault_sequences", "schedules"], "Every sequence of calls, every content, tag, number and buffer size, every JSON spelling, one to three threads, and a failing allocation at any point.",
     "Tests build a few events from constants, never fail an allocation in the middle of a change and never compare the whole event after a failed call.",
     ["src/event.c", "src/relay_protocol.c"], [("tags", "src/event.c nostr_event_add_tag"), ("content", "src/event.c nostr_event_set_content"), ("JSON", "src/event.c nostr_event_to_json, nostr_event_from_json"), ("id", "src/event.c nostr_event_compute_id"), ("canonical form and accessors", "src/relay_protocol.c nostr_event_serialize_canonical, nostr_tag_iterator_next")],
     runs=8000, variants=['ossl', 'min'], rule="The seed decides one to three threads, their calls and values, buffer sizes, JSON spellings and failing allocations; after every call the whole event is compared with a reference event and memory is accounted.",
     stub=["clock", "threads", "alloc"], assume=["the values given to one call are not pointers into the event being changed"])
prop("C15", "Replies, reposts, reactions and quotes are written and read as NIP-10, 18 and 25 define",
     "Adding reply, root, mention, repost, reaction or quote tags to an event, or creating such events, writes exactly the tags, kinds and content NIP-10, NIP-18 and NIP-25 define, all of them or none, and changes nothing else. Reading gives the thread root, the replied-to event, the reposted, quoted and reacted-to events, their authors, relay hints, kinds and reaction type exactly as the tags say, with or without markers, so what one client writes another reads unchanged; a mention is never taken for a parent, and malformed tags are never reported as identifiers. Whatever fails or whatever buffer is given, no half-written tags, leak or overrun remains.",
     ["inputs", "histories", "fault_sequences", "schedules"], "Every event, tag list (well-formed, deprecated, malformed), identifier, relay hint and buffer size, one to three threads, and a failing allocation at any point.",
     "Tests cover a few well-formed events with everything working.",
     ["src/nip10.c", "src/nip18.c", "src/nip25.c"], [("threads", "src/nip10.c nostr_event_add_reply_tags, nostr_event_get_root_id, nostr_event_get_reply_id"), ("reposts and quotes", "src/nip18.c nostr_repost_create, nostr_repost_parse"), ("reactions", "src/nip25.c nostr_reaction_create, nostr_reaction_parse")],
     runs=8000, rule="The seed decides one to three threads, events, tags, identifiers, buffers and failing allocations; every event written is compared with the tags the NIPs define and every answer read with a reference reader.",
     stub=["clock", "threads", "alloc"], assume=["not claimed: marked and unmarked e tags mixed in one event, repeated k tags, relay hints longer than the given buffer"])
prop("C16", "A NIP-05 name is confirmed exactly when its domain says so",
     "Splitting a name@domain identifier, building its well-known URL, reading the answer and verifying a key accept exactly what NIP-05 defines: a name is confirmed for a key exactly when the answer of that very URL maps that name, in its names object, to that key in hex, and the relays reported are exactly those listed for that key. A lookup that fails, or an answer that is empty, cut short or too large confirms nothing and leaves no memory, result or relay list behind; no answer, terminated or not, is read beyond its length; results are whole, owned by the caller and freed completely.",
     ["inputs", "fault_sequences", "schedules"], "Every identifier, key, answer text, size, damage and failure of the HTTP callback, one to three threads, and a failing allocation at any point.",
     "Tests parse a few fixed answers; none has an HTTP callback that fails or answers half, hostile documents, or failing memory.",
     ["src/nip05.c"], [("identifier", "src/nip05.c nostr_nip05_parse"), ("URL", "src/nip05.c nostr_nip05_build_url"), ("answer", "src/nip05.c nostr_nip05_parse_response"), ("verification", "src/nip05.c nostr_nip05_verify")],
     runs=8000, rule="The seed decides identifiers, domains' documents, their spelling, the HTTP callback's failures and damage, failing allocations and thread switches; every answer is compared with a reference reading of the document.",
     stub=["clock", "threads", "alloc"], real=[LIB, "the HTTP side is the application's callback, simulated"], assume=["not claimed: \\u escapes in names, repeated keys, more than 100 relays, documents that are not JSON in other ways than being cut short"])
prop("C17", "A delegation lets exactly its delegatee sign exactly what it allows",
     "A delegation token is a valid signature of its delegator over the delegatee and the conditions as NIP-26 defines, and is verified, attached to an event and read back with delegator, conditions and token unchanged. A delegated event is accepted exactly when its tag's token is the delegator's for that event's author and conditions, its own signature is valid, and its kind and time satisfy every condition: any listed kind, and all of the time bounds. Malformed conditions or tags, a token for another delegatee, conditions or key, and an event altered afterwards are refused. Whatever fails, nothing is accepted wrongly, half-attached, leaked or left behind, and the call works when retried.",
     ["inputs", "histories", "fault_sequences", "schedules"], "Every pair of keys, condition text, event, alteration of tag, token or event, one to three threads, and every failing allocation, random draw and crypto call.",
     "Tests use a few fixed conditions with everything working; none repeats a bound, tampers with each part or fails a crypto call.",
     ["src/nip26.c"], [("conditions", "src/nip26.c nostr_delegation_check_conditions"), ("token", "src/nip26.c nostr_delegation_create, nostr_delegation_verify"), ("attachment", "src/nip26.c nostr_event_add_delegation, nostr_event_get_delegation"), ("delegated event", "src/nip26.c nostr_event_verify_delegation")],
     variants=['ossl', 'mbed', 'nos', 'min'], runs=8000, rule="The seed decides threads, keys, conditions, events, tampering, failures and switches; every verdict and every parsed field is compared with an independent NIP-26 and BIP-340 reference.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["at most 100 conditions, numbers in canonical decimal, conditions separated by a single &, lower-case hex"])
prop("C18", "An encrypted private key opens only with its password, into that key",
     "Encrypting a private key gives an ncryptsec text as NIP-49 defines, with the requested cost and key-security byte and with salt and nonce freshly drawn each time; decrypting it with the same password gives back exactly that key and security level, as it does any text made by another implementation. A different password, any altered, truncated or extended text, an unknown version, a cost outside the allowed range or an unusable key is refused and yields no key bytes. Validation accepts exactly well-formed texts. Whatever fails (memory, randomness, crypto calls), no key, partial text or success appears wrongly, nothing leaks, and the call works when retried.",
     ["inputs", "fault_sequences", "schedules"], "Every key, password, cost, security level, alteration and buffer size, one to three threads, and every failing allocation, random draw and crypto call.",
     "Tests encrypt and decrypt one or two fixed keys at one cost; no draw or crypto call can fail, and no text is damaged systematically.",
     ["src/nip49.c"], [("encryption", "src/nip49.c nostr_ncryptsec_encrypt"), ("decryption", "src/nip49.c nostr_ncryptsec_decrypt"), ("validation", "src/nip49.c nostr_ncryptsec_validate")],
     runs=9000, rule="The seed decides keys, passwords, costs, damage, buffer sizes, failures and switches; each text is opened by an independent NIP-49 reference and each answer compared with it. Some runs use the real scrypt and published vectors.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "kdf"], assume=["ASCII passwords (no Unicode normalisation is claimed)"])
prop("C19", "A list is published and read back item for item, private items in secret",
     "A NIP-51 list holds exactly the items, identifier, title, description and image put into it, in order; publishing it writes exactly the tags its kind defines, puts private items only into content that only the owner's key opens, and reading any client's list event gives back those same items and texts, private ones with the key only. A build without encryption refuses private items rather than revealing them. NIP-65 relay lists keep each relay and its read and write markers exactly through publishing and reading, and every query shows them. A call that fails changes nothing, and nothing leaks or is freed twice.",
     ["inputs", "histories", "fault_sequences", "schedules"], "Every list kind, item type, text of any bytes and length, public or private, every spelling of another client's event, one to three threads, and every failing allocation, random draw and crypto call.",
     "Tests build a few short lists with everything working and never read one from another client, a damaged one, or one with long or escaped private items.",
     ["src/nip51.c", "src/nip65.c", "src/nip44.c"], [("lists", "src/nip51.c nostr_list_add_item, nostr_list_to_event, nostr_list_from_event"), ("private items", "src/nip51.c parse_private_content, src/nip44.c nostr_nip44_encrypt"), ("relay lists", "src/nip65.c nostr_relay_list_to_event, nostr_relay_list_from_event")],
     variants=['ossl', 'nos', 'min', 'nosj'], runs=8000, rule="The seed decides threads, lists, their items and texts, spelling, key use, failures and switches; after every call the whole list is compared with a reference list, and published private content is opened with an independent NIP-44 reference.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["not claimed: duplicate items of another client's list, repeated d or title tags, private items with an empty value, malformed private JSON, more than 4096 items or 256 relays"])
prop("C20", "A zap request asks exactly what was meant; only its paid receipt proves it",
     "A zap request is a kind 9734 event naming exactly the given amount, recipient, LNURL, comment and every relay, or none is made. A receipt is accepted as proof exactly when it is a kind 9735 event of the expected server, authentic, holding in its description that very request in any JSON spelling, and its invoice pays the requested amount; an altered, redirected or different request, another amount or none, another server, and an altered receipt are refused. Reading a receipt gives exactly the invoice, amount in millisats, preimage and request it carries, and nothing where it carries none. An LNURL is valid exactly when its prefix, characters and checksum are, at any length. Whatever fails, nothing is accepted wrongly, overrun, left dangling or leaked.",
     ["inputs", "fault_sequences", "schedules"], "Every amount, recipient, relay list, invoice, description, alteration and LNURL text, one to three threads, and every failing allocation and crypto call.",
     "Tests use one invoice, two relays and short LNURLs with everything working, and check one wrong amount and one wrong key.",
     ["src/zap.c"], [("request", "src/zap.c nostr_zap_create_request"), ("receipt", "src/zap.c nostr_zap_parse_receipt"), ("proof", "src/zap.c nostr_zap_verify"), ("LNURL", "src/zap.c nostr_zap_validate_lnurl")],
     runs=8000, rule="The seed decides threads, requests, receipts, invoices, tampering, LNURLs, failures and switches; every event, amount and verdict is compared with an independent NIP-57, BOLT-11 amount and BIP-340 reference.",
     stub=["clock", "threads", "alloc", "crypto"], assume=["lower-case invoices and LNURLs; whole-millisat invoice amounts; one amount tag in a request"])
prop("C21", "A relay describes itself exactly, and its checks accept exactly what is valid",
     "The NIP-11 document of a relay holds exactly the texts, numbers, lists, limits, retention and fees that were configured, as valid JSON whatever bytes the texts contain, with its exact length, or an error and no document; it is never incomplete and never written beyond the buffer, and a failed change keeps the supported NIPs. The checks for hex ids, id prefixes, subscription ids, addresses and timestamps accept exactly what NIP-01 allows, hex conversions are exact in both directions and stay within their buffers, and tag ids are extracted completely. Nothing leaks or is freed twice, with many threads reading one document.",
     ["inputs", "histories", "fault_sequences", "schedules"], "Every configuration, text and number, buffer size, candidate id, address, time and clock value, one to three threads, and a failing allocation at any point.",
     "Tests serialise two or three small documents into large buffers with everything working and check a few fixed strings.",
     ["src/relay_nip11.c", "src/relay_protocol.c"], [("document", "src/relay_nip11.c nostr_relay_info_serialize, nostr_relay_limitation_serialize"), ("supported NIPs", "src/relay_nip11.c nostr_relay_info_add_nip, nostr_relay_info_set_nips"), ("checks", "src/relay_protocol.c nostr_validate_subscription_id, nostr_validate_address, nostr_validate_timestamp"), ("hex", "src/relay_protocol.c nostr_hex_to_bytes, nostr_bytes_to_hex")],
     runs=9000, rule="The seed decides threads, configurations, texts, numbers, buffer sizes, candidates, clock, failures and switches; documents are compared as JSON with a reference document and every verdict with an independent check.",
     stub=["clock", "threads", "alloc"], assume=["arrays and units inside the information are heap memory it owns, as nostr_relay_info_free documents by freeing them"])
prop("C22", "Encrypted payloads open exactly for their key pair, and are never reused or forged",
     "A NIP-44 payload is a version 2 payload whose padding, cipher and MAC are exactly those of NIP-44 for that key pair and a nonce freshly drawn for it; the other side opens it into the same bytes, and either side may open it. A payload that is altered, truncated, extended, of another version, for other keys or of a wrong length is refused. A NIP-04 payload is the base64 cipher text and its fresh vector and opens into the same text. When the random source, the key derivation, the cipher or an allocation fails, there is no payload and no text, nothing is leaked and no argument is changed; a build without the NIP-04 cipher says so. Many threads may encrypt and decrypt at once.",
     ["inputs", "fault_sequences", "schedules"], "Every key pair, text from 1 to 65535 bytes, nonce, alteration and malformed payload, one to three threads, and every failing allocation, random draw and crypto call.",
     "The tests of these modules are not built here; where they are, they encrypt a few fixed texts with everything working.",
     ["src/nip44.c", "src/nip04.c"], [("NIP-44", "src/nip44.c nostr_nip44_encrypt, nostr_nip44_decrypt"), ("NIP-04", "src/nip04.c nostr_nip04_encrypt, nostr_nip04_decrypt")],
     variants=['nos', 'nosm', 'nosj'], runs=8000, rule="The seed decides threads, keys, texts, random bytes, tampering, failures and switches; every payload and text is compared with an independent NIP-44 and NIP-04 reference (ECDH, HKDF, ChaCha20, HMAC, padding, AES-CBC).",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["base64 text that decodes to the same payload is the same payload", "non-zero padding bytes inside an authentic payload are not claimed to be refused"])
prop("C23", "A private message shows only its recipient, and tells the recipient its true author",
     "What NIP-17 and NIP-59 make is a gift wrap of kind 1059, signed by a key freshly drawn for it alone, with one p tag, holding a seal of kind 13 without tags, signed by the author, holding the unsigned message with its own id, the text, the recipients, the subject and the reply exactly as given. Seal and wrap are dated up to two days back, by freshly drawn amounts; author, message id and text never show outside. The recipient, and nobody else, opens it into that message and learns its author; a message claiming another author than its seal, a seal with a wrong signature or kind, an altered or foreign wrap is refused. When randomness, crypto or memory fails there is no event and nothing leaks.",
     ["inputs", "fault_sequences", "schedules"], "Every key pair, text, subject, reply, recipient list, event to wrap, tampering at each layer, clock value, one to three threads, and every failing allocation, random draw and crypto call.",
     "The tests of these modules are not built here; where they are, they wrap and open one message with everything working.",
     ["src/nip17.c", "src/nip59.c"], [("message", "src/nip17.c nostr_nip17_send_dm"), ("unwrap", "src/nip17.c nostr_nip17_unwrap_dm"), ("rumor and seal", "src/nip59.c nostr_nip59_create_rumor, nostr_nip59_create_seal"), ("gift wrap", "src/nip59.c nostr_nip59_create_gift_wrap, nostr_nip59_unwrap_gift_wrap")],
     variants=["nos"], runs=5000, rule="The seed decides threads, keys, texts, random bytes, clock, tampering, failures and switches; each layer is opened and compared by an independent NIP-44, NIP-59 and BIP-340 reference.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["the outer signature and the id of the message inside are not claimed to be verified on opening"])
prop("C24", "Remote signing requests are read whole or refused, and answered to their asker alone",
     "A NIP-46 request is read into exactly its id, method and parameters, objects and strings alike, or refused: never cut, never without an id or method, never partly. A response is an event of kind 24133 with one p tag for the client, signed by the signer, whose NIP-44 content only the client opens and which holds exactly the request's id and the result as a string, or the error. Failing memory, randomness or crypto gives an error, no event, no parameters, and no leak; parameters and responses are freed completely and once.",
     ["inputs", "fault_sequences", "schedules"], "Every request text, id, method, parameter list, result and error, key pair, one to three threads, and every failing allocation, random draw and crypto call.",
     "The tests of this module are not built here; where they are, they read two requests and make one response with everything working.",
     ["src/nip46.c"], [("request", "src/nip46.c nostr_nip46_parse_request"), ("response", "src/nip46.c nostr_nip46_create_response")],
     variants=["nos"], runs=8000, rule="The seed decides threads, requests, keys, texts, random bytes, failures and switches; parameters are compared with a reference JSON reader and responses opened by an independent NIP-44 reference.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["a response with both an error and a result carries the error", "text after the request object is ignored"])
prop("C25", "A wallet connection, its requests, answers and information survive the wire exactly",
     "A NIP-47 connection URI is read into exactly its wallet key, secret, every relay and address, percent-escapes decoded, or refused: malformed or missing keys, secret or relay never make a connection. A request is an event of kind 23194 signed by the connection's key with one p tag for the wallet, whose content only the wallet opens and which holds exactly the method and parameters, whatever their length; parameters that are not JSON are refused. An answer is read, from its author alone, into exactly its type and result or error; an information event into exactly its methods, notifications and encryptions. Failing memory, randomness or crypto gives an error, no output left dangling and no leak.",
     ["inputs", "fault_sequences", "schedules"], "Every URI, escape, relay list, method, parameter text, answer, information event, key pair, one to three threads, and every failing allocation, random draw and crypto call.",
     "The tests of this module are not built here; where they are, they use one URI and small requests with everything working.",
     ["src/nip47.c"], [("connection", "src/nip47.c nostr_nip47_parse_connection_uri"), ("request", "src/nip47.c nostr_nip47_create_request_event"), ("answer", "src/nip47.c nostr_nip47_parse_response_event"), ("information", "src/nip47.c nostr_nip47_parse_info_event")],
     variants=['nos', 'nosj'], runs=6000, rule="The seed decides threads, URIs, requests, answers, random bytes, tampering, failures and switches; everything is compared with a reference URI and JSON reader and an independent NIP-44 reference.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["no %00 in a URI"])
prop("C26", "Wallet parameters ask exactly what was meant, and results are never misread",
     "The parameters of a NIP-47 payment, keysend, invoice, lookup or listing are JSON that holds exactly the given amounts, texts, descriptions, records and times, or there are none: never incomplete because memory was short, never a number changed. A result is read into exactly its balance, preimage, fees or wallet information; an amount that is negative, fractional or beyond what can be held is refused or reported as absent, never wrapped; a missing or mistyped field is never invented. Every output is set or left empty, never dangling, and nothing leaks when an allocation fails.",
     ["inputs", "fault_sequences", "schedules"], "Every amount, text, record list, result document with any field missing, mistyped or extreme, one to three threads, and every failing allocation.",
     "The tests of these modules are not built here; where they are, they build and read one document of each kind with everything working.",
     ["src/nip47.c", "src/nip47_commands.c"], [("parameters", "src/nip47_commands.c nostr_nip47_create_*_params"), ("results", "src/nip47_commands.c nostr_nip47_parse_*_response")],
     variants=['nos', 'nosj'], runs=9000, rule="The seed decides threads, amounts, texts, documents, failures and switches; everything is compared with reference documents.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["amounts in results of at most 15 digits (cJSON reads numbers as double)"])
prop("C27", "A wallet session never spends beyond its budget, outlives its time or answers to another id",
     "A session id is freshly drawn, given once, and only the whole id reaches the session, until it is destroyed or expires; then nothing reaches it, not even an extension. A permission allows its method up to its limit per interval and never more, also with huge amounts and with many threads paying at once, and allows everything within the limit. No more sessions are open and no more permissions kept than configured, and no more than ten sessions are made in a second, whichever way the clock moves; within those limits creation works. A session's connection is that of its own URI. When memory or randomness fails there is no session and no id, and when every session is gone nothing is left.",
     ["inputs", "histories", "schedules", "fault_sequences"], "Every sequence of creating, checking, extending, adding and destroying from one to three threads, every limit, interval, amount and id, clock jumps and expiry, and every failing allocation and random draw.",
     "The tests of this module are not built here; where they are, they use one session in one thread with a working clock.",
     ["src/nip47_session.c"], [("creation, capacity and rate", "src/nip47_session.c nostr_nip47_session_create, cleanup_expired_sessions"), ("budget", "src/nip47_session.c nostr_nip47_session_check_permission"), ("permissions", "src/nip47_session.c nostr_nip47_session_add_permission"), ("lifetime", "src/nip47_session.c nostr_nip47_session_extend, nostr_nip47_session_destroy")],
     variants=["nos"], runs=6000, rule="The seed decides threads, operations, amounts, limits, clock, failures and switches; grants, refusals, expiry, capacity and rate are compared with a reference session table over the recorded history.",
     stub=["clock", "threads", "alloc", "rng", "crypto", "noscrypt"], assume=["a connection got from a session is not used after another thread destroys the session", "a permission with a reset interval of at least one second"])
prop("C28", "What a build says about itself is true, complete and the same in every thread",
     "A NIP is reported as supported exactly when it was built in, for any number asked. The list of enabled features names each feature of the build exactly once and no other, and is whole whenever and from whichever thread it is asked for, also while other threads ask for it for the first time; a text once given never changes. Relay, relay protocol, HD key and JSON availability and the crypto backend are those of the build. Every error code has its own text, and a code that is none gets a text that is nobody else's.",
     ["schedules", "inputs"], "Every number asked, every order and interleaving of first and later questions from two to five threads, and every build configuration simulated.",
     "No test asks for features at all, let alone from several threads at once.",
     ["src/features.c", "src/key.c", "src/relay_protocol.c"], [("features", "src/features.c nostr_feature_list_enabled, nostr_feature_nip_supported"), ("error texts", "src/key.c nostr_error_string, src/relay_protocol.c nostr_relay_error_string")],
     variants=['ossl', 'mbed', 'nos', 'nosm', 'min', 'nosj'], runs=8000, rule="The seed decides threads, questions and switches; every answer is compared with the build's configuration, texts held are read again later.",
     stub=["clock", "threads", "alloc"])

CHECKS = {p["id"]: p for p in P}
NOT_APPLICABLE = []   # (property dict, reason)

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P + [n[0] for n in NOT_APPLICABLE]:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py setup",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py quick {p['id']}", "thorough_cmd": f"python3 check.py thorough {p['id']}", "technique": p["technique"], "level": "exploration",
                     "level_note": p["note"] or "Seeded search: every run is deterministic and replayable, but the space is sampled, not exhausted. Trusts the simulator's seams and the oracle; assumptions: " + ("; ".join(p["assume"]) or "none beyond the stubs named in the evidence") + "."} for p in P],
         "not_applicable": [{"property": n[0]["id"], "reason": n[1]} for n in NOT_APPLICABLE],
         "notes": "No hooks in /repo: the seams are the library's undefined symbols (allocator, threads, clock, randomness, environment, websocket library), renamed in its object file by build.py."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__": main()
