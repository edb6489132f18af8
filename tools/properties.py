def A(files, mech, state=(), observe=(), hook=None):
    return {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": hook}


NOTRUN = "No existing test runs the codec at all (it is only compiled); a test would sample a few buffers out of all of them."
FEW = "The client tests replay a few hand-written sequences of operations; the guarantee is about all of them."
NOROOM = "The room tests walk through a few fixed seatings and signal orders; the guarantee quantifies over all configurations and signal histories."

# ------------------------------------------------------------------ codec: core messages
p("C01", "Each core message consumes exactly the bytes it occupies",
  "For every well-formed message the duel core can emit, encoding it reports having consumed exactly the number of bytes that "
  "message occupies, and reads nothing beyond them. The next message in a concatenated buffer is therefore always found at its start.",
  ["inputs"], "every message kind, record count, flag combination and payload value the core can emit",
  NOTRUN, A([ENC], [("one encode function per message kind", ENC), ("cursor arithmetic over the buffer", ENC)],
            observe=["EncodeOneResult::bytes_read"]))
p("C02", "Each core message kind gets its specified encode outcome",
  "Every message kind maps to a fixed outcome: an event, a request, a special-cased message that needs caller action, a "
  "swallowed message, or unknown. A structured message accompanies the outcome exactly when the outcome says there is one.",
  ["inputs"], "all 256 message kinds and all payloads", NOTRUN,
  A([ENC, "include/ygopen/codec/encode_common.hpp"], [("dispatch over the message kind", ENC)], observe=["EncodeOneResult"]))
p("C03", "Event messages carry over every field of the core message faithfully",
  "The structured event produced from a core event message says exactly what the core said: same cards, same places, same "
  "amounts, same order, in the field meant for it, with nothing lost, truncated, swapped or invented.",
  ["inputs"], "every event kind and every payload value, including unusual widths, counts and flag combinations", NOTRUN,
  A([ENC, "include/ygopen/proto/duel_data.proto", "include/ygopen/proto/duel_msg.proto"], [("event encoders", ENC)]))
p("C04", "Request messages carry over every option of the core faithfully",
  "The structured request produced from a core selection prompt addresses the player the core asked, and offers exactly the "
  "choices, minimum/maximum counts, hints and flags the core offered, in the core's order.",
  ["inputs"], "every prompt kind and every payload value", NOTRUN, A([ENC], [("request encoders", ENC)]))
p("C05", "Card queries are decoded completely, in place and in order",
  "Every attribute in a card query block reaches the structured query of the right card, whatever attributes precede or follow "
  "it and whether the core knows or hides the card. An unknown attribute is skipped by its declared size, never misread.",
  ["inputs"], "every set and order of attribute records, sizes and values, for single cards and whole locations", NOTRUN,
  A([ENC, "include/ygopen/client/queries.inl"], [("query record loop", ENC), ("location query loop", ENC)]))
p("C06", "Core zone coordinates and structured places translate both ways",
  "A place names the same physical zone on both sides: field and pendulum zones, monster and spell zones, piles and overlay "
  "materials read from the core map to their own place, and a place chosen by a player is answered with the core's coordinates of it.",
  ["inputs"], "every controller, location, sequence, overlay flag and selection-mask bit", NOTRUN,
  A([ENC, DEC], [("place reading and zone translation", ENC), ("zone answer writing", DEC)]))
p("C07", "Card moves and material hand-offs keep cards and materials together",
  "A core card move becomes operations that take the card from where it was and put it where it goes, including creation, "
  "disposal, attaching as overlay material and detaching. Materials whose holder already left are deferred or redirected to where "
  "the holder was, so that no card is lost or duplicated.",
  ["inputs", "histories"], "every pair of source and target kinds, with any state of the tracked materials", NOTRUN,
  A([ENC], [("move encoder", ENC), ("deferred materials kept by the encode context", ENC)],
    state=[("deferred materials / left holders", "materials waiting for their holder to arrive", BEC)]))
p("C08", "Messages that depend on tracked duel state are completed from that state",
  "Draws, deck-top reveals, graveyard/deck swaps, deck reversals and match wins, which the core states relative to the current "
  "duel, are completed with the pile sizes and reasons tracked so far, so that the emitted places are absolute and right.",
  ["inputs", "histories"], "every payload and every size of the piles involved", NOTRUN,
  A([ENC], [("encode context queries", ENC)], state=[("encode context", "pile sizes and match win reason", BEC)]))
p("C09", "Answers are written as the exact bytes the core expects",
  "For every kind of answer a player can give, the response is byte for byte the encoding of that answer the core understands, "
  "for any chosen indexes, counts, values and places.",
  ["inputs"], "every answer kind, number of picks and value", NOTRUN, A([DEC], [("one writer per answer kind", DEC)]))
p("C10", "A decoded answer's buffer holds that response and nothing else",
  "After an answer is decoded the output buffer's length is exactly the length of the response, whatever the buffer contained "
  "before, and no byte is written outside it.",
  ["inputs", "histories"], "every answer kind and any prior content of the reused buffer", NOTRUN,
  A([DEC], [("resize then write", DEC)]))

# ------------------------------------------------------------------ client: frame
p("C11", "Card operations act on exactly the place they name",
  "Adding, removing, moving, swapping or looking up a card affects exactly the card at the given controller, location, position "
  "and material index; every other card keeps its identity and relative order.",
  ["inputs", "histories"], "every place kind, every pile size and insertion point, any prior contents", FEW,
  A([FR], [("place dispatch to pile, zone or materials", FR)], state=[("piles and zones", "who is where", FR)]))
p("C12", "No card is lost, duplicated or leaked by moves, swaps or clearing",
  "Every operation conserves cards: moves, shuffles and swaps permute the existing cards, additions create exactly one, removals "
  "dispose of exactly one, and clearing disposes of all of them and leaves every place empty.",
  ["inputs", "histories"], "every operation on any reachable contents", FEW,
  A([FR], [("create/dispose primitives", FR)], state=[("card storage", "all live cards", FR)]))
p("C13", "Pile resizing, splicing and swapping yield exactly the requested piles",
  "Resizing a pile adds or removes exactly the difference, splicing moves exactly the given run of cards to the given point in "
  "order, and swapping exchanges the two piles' contents entirely.",
  ["inputs", "histories"], "every pile, size, run and insertion point", FEW, A([FR], [("pile operations", FR)]))
p("C14", "Each controller and location denotes its own storage",
  "Distinct (controller, location) pairs never share storage, each location has the number of zones the game defines for it, and "
  "reading a place through the read-only and the mutable interface gives the same card.",
  ["inputs"], "every controller, location and sequence", FEW, A([FR], [("storage selection", FR)]))
p("C16", "Shuffling only permutes the pile segment or set cards it names",
  "A shuffle of a run of a pile, or of the set cards named by an event, rearranges those cards among themselves as told and "
  "leaves everything else in place, with the materials following the zone they belong to.",
  ["inputs", "histories"], "every run, every list of places", FEW, A([FR, PE], [("shuffle", FR), ("set-card shuffle", PE)]))

# ------------------------------------------------------------------ client: board
p("C17", "Applying an event changes the board exactly as the event says",
  "For every event, in the documented order of its parts, the board's frame, life points, turn, phase, chain and blocked zones end "
  "up as the event describes and nothing else changes; an event never takes life points below zero.",
  ["inputs", "histories"], "every event kind and combination of optional parts, on any board", FEW,
  A([PE, BO], [("event application", PE)], state=[("board", "frame, lp, turn, phase, chain, blocked zones", BO)]))
p("C18", "Undoing an event reverses exactly what applying it did, in reverse order",
  "Every effect an event has on the board when applied has its inverse performed, in reverse order and with the same arguments, "
  "when the event is undone, so that the board returns to its previous state.",
  ["inputs", "histories"], "every event kind and board, any length of history", FEW, A([UP, PE], [("mirror of event application", UP)]))
p("C19", "Frame history undo restores contents and disposed cards, step by step",
  "Undoing the operations recorded by the history-keeping frame in reverse order restores each earlier contents exactly, "
  "including cards that had been removed, and redoing them arrives at the same contents again.",
  ["histories"], "every sequence of operations with undos and redos in between", FEW,
  A([LI], [("operation log with a cursor", LI)], state=[("operation log", "what each processed operation removed or added", LI)]))
p("C20", "Undoable values step back and forth through their assignment history",
  "An undoable value reads as the last assignment not undone; undoing exposes the previous one, and re-assigning after an undo "
  "replays forward through the history already recorded.",
  ["histories"], "every sequence of assignments and undos", FEW, A([UN], [("history list with a cursor", UN)]))
p("C21", "Applying a query updates exactly the attributes it carries",
  "Applying a query to a card stores each attribute the query carries in the matching attribute of the card at that place, leaves "
  "the others alone, and, when asked to, reports exactly those carried single-valued attributes whose value was already known.",
  ["inputs", "histories"], "every set of attributes and prior values", FEW, A([PQ, QI], [("per-attribute table", QI)]))
p("C22", "Every query attribute is handled alike by card, parser, encoder and schema",
  "The set of card attributes is the same in the wire schema, the query decoder, the card's storage and the query application, "
  "each paired with its own field; no attribute is dropped or cross-wired between them.",
  ["inputs"], "all attributes", "Tests touch a few attributes; the agreement of the tables is a global fact.",
  A([QI, TRAITS, "include/ygopen/client/card.hpp", PQ, ENC, "include/ygopen/proto/duel_data.proto"], [("attribute table", QI)]))
p("C23", "Places are totally ordered and equal exactly when all coordinates agree",
  "Comparing places is a strict total order over controller, location, sequence and overlay index, and equality of places means "
  "equality of all four; maps keyed by place therefore never confuse two places.",
  ["inputs"], "all pairs and triples of places", "One test compares a handful of places; all values matter.", A([PD], [("place comparison", PD)]))
p("C24", "Bit selection returns the top or bottom set bits for every width",
  "Population count counts the set bits; choosing bits from the left or the right yields exactly that many of the most or least "
  "significant set bits (all of them when fewer are set), for every unsigned width.",
  ["inputs"], "all counts and all values of 8, 16, 32 and 64 bits", "Tests sample a handful of values.", A([BIT], [("bit loops", BIT)]))

# ------------------------------------------------------------------ server room
p("C25", "A duel starts only on the host's order, with both teams ready and legal",
  "The room leaves configuration only when the host orders it, both teams have at least one duelist, and every seated duelist is "
  "ready with a valid deck; any other start order changes nothing and sends nothing.",
  ["inputs", "histories", "configurations"], "every seating, readiness and validity pattern, every sender", NOROOM,
  A([RO], [("start gate", RO)], state=[("seats", "client, deck, validity and readiness", RO)]))
p("C26", "Only a duelist with a valid deck can become ready",
  "A seated duelist's deck is stored only if the validator accepts it, a rejected deck is forgotten and reported with its error, "
  "and a duelist is never made ready without an accepted deck; others' seats are untouched.",
  ["inputs", "histories"], "every sender, prior seat state and validator verdict", NOROOM, A([RO], [("deck update", RO), ("ready toggle", RO)]))
p("C27", "Arriving clients get one free seat on the smaller team, else spectate",
  "A client entering during configuration is given exactly one previously free seat within the configured team sizes, on the team "
  "with fewer duelists (the first team on a tie), and becomes a spectator only if every allowed seat is taken. No seated client is displaced.",
  ["inputs", "histories", "configurations"], "every seating pattern and team-size configuration", NOROOM,
  A([RO], [("seat search", RO)], state=[("seats and spectators", "who sits where", RO)]))
p("C28", "Room options are normalised to supported values at creation",
  "Whatever options a room is created with, it has one duelist limit per team, each between one and the supported maximum, and a "
  "first-turn method that the room knows.",
  ["configurations"], "all option values a client can send", NOROOM, A([RO], [("option clamping", RO)]))
p("C29", "Signals act only in the room state they are meant for",
  "A client signal has an effect only if it belongs to the room's current state; a signal meant for another state, or an empty one, "
  "changes nothing and sends nothing. The room's states correspond one to one to the published state numbers.",
  ["inputs", "histories"], "every state and signal", NOROOM, A([RO, "include/ygopen/proto/room.proto"], [("state dispatch", RO)]))
p("C30", "Room announcements reach exactly their audience",
  "Announcements about the room reach every seated duelist of both teams and every spectator once each; replies about a client's "
  "own deck, its entry snapshot and its prompt to decide reach that client alone.",
  ["inputs", "histories", "configurations"], "every seating and spectator set, every kind of signal", NOROOM, A([RO], [("send helpers", RO)]))
p("C31", "Room announcements describe the state they announce",
  "An announcement carries the room's true state at that moment: the right team, position, user, host and readiness flags, options, "
  "spectator count and list of seated duelists.",
  ["inputs", "histories", "configurations"], "every state and signal", NOROOM, A([RO], [("event population", RO)]))
p("C32", "The first-turn decision follows the configured method",
  "With the host-chooses method only the host decides, by a valid team number; with dice or coin the announced result agrees with "
  "the announced winner, dice lie between one and six, and the winning team's leader is prompted.",
  ["inputs", "histories", "configurations"], "every method, seating and random outcome", NOROOM, A([RO], [("first-turn state", RO)]))
p("C33", "The encode context answers from the board and remembers what it is told",
  "The tracked state the encoder consults reports the current pile sizes and materials of the board, returns each deferred material "
  "once, in order, and returns for a departed holder the place last recorded for it.",
  ["inputs", "histories"], "every sequence of recordings and lookups", "The only test of the context default-constructs it.",
  A([BEC], [("context methods", BEC)], state=[("board, left map, deferred list", "what the encoder needs", BEC)]))

# ------------------------------------------------------------------ cross-cutting
p("C34", "Behaviour is the same with and without debug assertions",
  "No assertion condition has a side effect the program relies on, so that debug and release builds behave alike.",
  ["programs"], "every assertion in the library", "Tests run one build flavour only.",
  A(["include/ygopen", "src/codec"], [("assert conditions", "include/ygopen, src/codec")]))
p("C35", "Library objects share no hidden mutable state",
  "The library keeps no mutable state outside the objects a caller creates, so that independent duels, rooms and encoders used from "
  "different threads never influence each other.",
  ["schedules", "programs"], "every function reachable from the public headers", "Tests are single-threaded.",
  A(["include/ygopen", "src/codec"], [("no mutable static storage", "include/ygopen, src/codec")]))
p("C36", "No library object or variable is read before it has a value",
  "Every member of every library object has a defined value after construction, and every local variable before it is read.",
  ["inputs", "programs"], "every constructor and every local variable", "Indeterminate values often happen to look right in tests.",
  A(["include/ygopen", "src/codec"], [("member initialisers", "include/ygopen")]))
p("C37", "The wire schema and protocol constants stay compatible",
  "Field numbers, wire types, labels and enumerator values of the published messages, and the numeric values of the protocol "
  "constants, never change meaning, so that stored replays and older peers remain readable.",
  ["programs", "histories"], "every message, field, enumerator and constant", "Tests round-trip within one version only.",
  A(["include/ygopen/proto", "include/ygopen/duel/constants"], [("proto definitions", "include/ygopen/proto")]))
p("C38", "Every public header compiles on its own and twice",
  "A translation unit that includes any one public header, alone or repeatedly, compiles.",
  ["programs"], "every public header", "Tests include headers in one lucky order.",
  A(["include/ygopen"], [("include guards and includes", "include/ygopen")]))
p("C39", "Owning objects cannot be copied into aliases of each other",
  "Copying a frame, a history-keeping frame, an undoable value, a board or a room either is impossible or yields an independent "
  "object; a copy never refers to cards or history owned by the original.",
  ["programs"], "every owning type and every way to copy it", "No test copies these objects.",
  A([FR, LI, UN, RO], [("copy and move operations", FR)]))
p("C40", "Location and phase helpers classify every value consistently",
  "Every location is exactly one of empty, pile or zone, a place is classified by its location alone, each zone location has its "
  "published number of zones, and the controllers listed are exactly the two.",
  ["inputs"], "every location value and flag combination", "Tests sample a few values.",
  A(["include/ygopen/duel/constants/location.hpp"], [("classification helpers", "include/ygopen/duel/constants/location.hpp")]))

p("C45", "Library templates work with every type their requirements admit",
  "The room works with any standard random generator, whatever the width of its numbers; frames with cards that can only be moved or only "
  "be made by their builder; boards, cards, events and queries with plain as with history-keeping values; shuffles with the iterators of "
  "any container; bit helpers with every unsigned type, at compile time; in C++17 and C++20, with gcc and clang, with and without assertions.",
  ["programs", "configurations"], "every admitted type, by representative instantiations", "Tests instantiate each template with one set of types.",
  A(["include/ygopen"], [("templates", "include/ygopen")]))

# ------------------------------------------------------------------ beyond static analysis here
p("C41", "Random first-turn methods are fair and terminate",
  "Dice and coin decide each team with equal probability and the dice re-roll ends with probability one.",
  ["inputs"], "every random generator state", "Needs a distribution, not an example.", A([RO], [("dice and coin", RO)]),
  na="a statement about probability distributions of an arbitrary caller-supplied generator; no static rule in reach decides it")
p("C42", "A long-lived room uses bounded memory",
  "The memory a room holds does not grow without bound over its life.",
  ["histories"], "any length of history", "Tests are short.", A([RO], [("event arena", RO)]),
  na="the room allocates each announcement in an arena it never resets, by design so far; growth is a function of the runtime history "
     "length, which no static bound in reach limits")
p("C43", "Malformed core buffers are rejected rather than misread",
  "A truncated or inconsistent buffer is reported instead of read past its end.",
  ["inputs"], "every byte string", "Tests never feed malformed input.", A([ENC], [("none: the core is trusted", ENC)]),
  na="the encoder takes a bare pointer without a length and trusts the core by contract, so there is no bound to verify against")
p("C44", "The tracked board equals the core's board after any duel",
  "After encoding and applying any message sequence a core emits, the client board shows what the core's own board holds.",
  ["histories"], "every duel", "Needs the core.", A([ENC, PE], [("whole pipeline", ENC)]),
  na="the duel core is not part of the repository; its reachable message sequences cannot be derived from source here. The "
     "per-message parts are C03, C07, C11, C17")
