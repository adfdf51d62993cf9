#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

NET = "src/protocol/network.rs"; CORE = "src/protocol/core.rs"; PRE = "src/protocol/preproc.rs"
GAR = "src/protocol/garble.rs"; MOD = "src/protocol/mod.rs"; CIRC = "src/circuit.rs"; MATH = "src/math/mod.rs"
GF = "src/math/galois/mod.rs"; SH = "src/sharing.rs"; LIB = "src/lib.rs"
BG = "src/bin/garble.rs"; BP = "src/bin/preproc.rs"; GC = "extern/galois/galois.c"

p("C01", "Messages arrive exactly once, intact, in order and correctly attributed",
  "Every message a party sends is received exactly once by each party it is addressed to (the sender too when it addresses itself or everyone), under the context id it was sent with, byte for byte and marked with its true sender, and nothing else is ever received. Messages of one sender under one context id are received in the order they were sent. This holds for the TCP and the in-process network, for every party count, message size (empty included) and context id of 0 to 255 bytes, and for every timing of sends, receives and network progress, provided each context has at most one receive outstanding per party.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all interleavings of senders, receivers and router tasks; all splits of the byte stream into reads and writes; all link delays, stalls and buffer sizes; all mixes of message sizes, ids and recipients",
  "The network tests send one or two short messages per party over loopback in whatever order the OS picks; they never see a short read inside a length prefix, a full socket buffer, a receive posted after or before arrival under every order, long ids or messages above 127 bytes.",
  [NET, MOD],
  [("length-prefixed framing over each TCP link", "src/protocol/network.rs party_sender / party_receiver"), ("routing of received messages to waiting receivers by context id, with buffering", "src/protocol/network.rs receive_router"), ("fan-out of sends, loop-back of own messages", "src/protocol/network.rs send_router, setup_local_network")],
  ["return values of recv on every party"],
  [("mssg_pool", "messages that arrived before anybody asked", NET), ("handle_pool", "receivers waiting for a message", NET)])

p("C02", "The full party mesh always forms and every link is bound to the right peer",
  "Parties started with the same address list always end up with a complete network, whatever the order and spacing in which they start and however many early connection attempts are refused or delayed; every party's setup completes within seconds of the last party listening. In the formed network every ordered pair of parties can communicate, and a message addressed to a party arrives at that party, marked as coming from the party that sent it.",
  ["schedules", "configurations", "fault_sequences"],
  "all start orders and start delays; refused, slow or failing connection attempts; all orders in which connections are accepted and hand-shakes arrive; 1 to several hundred parties",
  "The TCP tests start all parties at once in one process on loopback, so connects are almost always accepted in id order and no party is late by more than microseconds.",
  [NET],
  [("retry until the peer listens", "src/protocol/network.rs connect_to_peers"), ("party id hand-shake on accepted connections", "src/protocol/network.rs connect_to_peers")],
  ["completion of network setup", "sender recorded on received messages"])

p("C03", "A round collects the first message of every party, indexed by party",
  "Waiting for a message from each party in a context completes exactly when every party has sent at least one message in that context, and returns one entry per party, in party order, holding the first message that party sent there since the previous round. Later duplicates from a party never displace its first message nor stand in for a missing party's message. This holds for every arrival order and for empty messages.",
  ["schedules", "inputs"],
  "all arrival orders, duplicates, empty payloads, concurrent rounds in other contexts and delays between parties",
  "No test sends duplicates, empty payloads or lets messages arrive before the round is waited for.",
  [NET], [("first message per sender kept, later ones dropped", "src/protocol/network.rs message_from_each_party")],
  ["returned list of messages", "completion time relative to sends"])

p("C04", "The barrier releases nobody early, everybody eventually, in every repetition",
  "No party leaves a barrier before every party has entered it, and once all have entered, all leave. When barriers on one context alternate with protocol rounds that reuse the same context ids, no message of one repetition is ever consumed in another. This holds whatever the relative speed of the parties and links.",
  ["schedules", "histories", "fault_sequences"],
  "all relative speeds of parties and links, stalled parties, many repetitions on the same ids",
  "The barrier has no test at all; the benchmarks use it between repetitions.",
  [NET, BG, BP], [("barrier built from one message per party", "src/protocol/network.rs sync"), ("repetition loop reusing context ids", "src/bin/garble.rs, src/bin/preproc.rs benchmark")],
  ["times of entering and leaving the barrier on each party", "contents of rounds"])

p("C05", "Traffic counters equal exactly what was received, at every moment",
  "For every peer, the counters a party reads are the number of payload bytes, and of payload plus context-id bytes, of a prefix of the messages that peer sent to it; they never decrease, a message handed to the user is already counted, and when all traffic has been delivered they equal the exact totals. The grand total is the sum over peers (own messages included), and the difference of two snapshots is exactly what arrived in between.",
  ["schedules", "histories", "inputs"],
  "all interleavings of counter reads with arrivals and receives; all message sizes and id lengths; both transports",
  "Tests read the counters once after one or two fixed-size messages, and only the payload count.",
  [NET, LIB], [("counter update before the message is handed out", "src/protocol/network.rs receive_router, Stats"), ("snapshot difference", "src/lib.rs Stats")],
  ["counter values returned to the user"])

p("C06", "Concurrent sub-protocols get enough distinct contexts and never mix",
  "A context that announces up to k sub-contexts can create k of them, for every k of at least 1, and parties that create them in the same order agree on their ids. In any tree of contexts, each announcing its number of children once, all ids are distinct, so protocol instances running concurrently under different contexts never receive each other's messages.",
  ["programs", "schedules", "inputs"],
  "all trees of nested contexts with any announced fan-out (1, 2, around 256 and 65536 included); all interleavings of the instances running in them",
  "No test creates contexts directly; the protocol tests use two levels with small fan-outs only.",
  [MOD, NET, GAR, PRE], [("child id = parent id + fixed-width counter", "src/protocol/mod.rs ProtocolIDBuilder"), ("routing by id", "src/protocol/network.rs receive_router")],
  ["ids produced", "messages received in each sub-protocol"])

p("C07", "Degree reduction and multiplication yield correct low-degree sharings",
  "Given packed sharings of x and y, a random sharing and a degree n-1 sharing of zero, every multiplication returns at the n parties shares that lie on one polynomial of degree at most t+l-1 whose secrets are the products, elementwise and in order; degree reduction likewise returns the secrets of its degree n-1 input. This holds for every batch size (0 included), every choice of leader or none, any number of concurrent instances, and every schedule and message delay.",
  ["schedules", "inputs", "configurations"],
  "parameter sets (n, t, l), batch sizes, leaders, numbers of concurrent instances, share values, schedules, transports and delays",
  "Tests run one instance for n=16, t=5, l=3 with one batch size and OS scheduling.",
  [CORE, NET, SH], [("masked opening to a leader who deals fresh shares", "src/protocol/core.rs reduce_degree, mult"), ("leader choice by hash of the context id", "src/protocol/core.rs leader_from_proto_id")],
  ["output shares of all parties, reconstructed by an independent implementation"])

p("C08", "Share transformation moves and recombines secrets correctly",
  "Given sharings whose secrets sit at one list of positions and a matching pair of random sharings, the transformation returns shares on one polynomial of degree at most t+l-1 whose value at the i-th new position is the selected old secret. This holds for any positions, for selections that repeat or drop secrets, for fewer than l positions, every batch size and leader, concurrent instances and every schedule.",
  ["schedules", "inputs", "configurations"],
  "position lists, selections with repetition, partial blocks, batch sizes, leaders, concurrency, schedules and delays",
  "Tests use one permutation-like selection with full blocks and one instance.",
  [CORE, MATH, SH], [("masked opening, selection and re-sharing at new positions", "src/protocol/core.rs trans"), ("ordered selection with repetition", "src/math/mod.rs Combination")],
  ["output shares of all parties, reconstructed by an independent implementation"])

p("C09", "Joint generation of transformation pairs yields matching random sharings",
  "From random sharings and zero sharings the parties obtain, for each requested transformation and repetition, two sharings: one of degree n-1 with random values at the old positions, one of degree at most t+l-1 whose values at the new positions are the selected values of the first. This holds for up to l transformations generated together, with differing position counts and repeated selections, any number of repetitions, concurrent instances and every schedule.",
  ["schedules", "inputs", "configurations"],
  "numbers and shapes of transformations, repetitions, parameter sets, concurrency, schedules and delays",
  "Tests generate one fixed batch of full-width transformations.",
  [CORE, SH], [("coefficients encoded as shares and evaluated jointly", "src/protocol/core.rs RandSharingTransform, randtrans")],
  ["both output share matrices of all parties, reconstructed independently"])

p("C10", "Generated random, zero and bit sharings are valid and fresh",
  "Every jointly generated sharing is consistent across parties: random and bit sharings have degree at most t+l-1, zero sharings have all-zero secrets, bit sharings have only 0/1 secrets, and at least the requested number is returned in the same order at all parties. The sharings are random: every party's contribution enters every output batch, outputs do not repeat, and values are not predictable from any single party's contribution.",
  ["schedules", "inputs", "configurations"],
  "requested counts (0, non-multiples of the batch size), parameter sets, concurrent instances, entropy, schedules and delays",
  "Tests request one count each and only reconstruct; they cannot see repeated or constant randomness.",
  [PRE, MATH, SH], [("each party deals, outputs are extracted by a super-invertible matrix", "src/protocol/preproc.rs rand, zero, randbit")],
  ["output shares of all parties, reconstructed independently", "messages dealt"])

p("C11", "Preprocessing delivers every kind of material, in full and of the right kind",
  "For any circuit and parameters, when preprocessing finishes every party holds at least as much material of each kind as garbling that circuit consumes, and shares held at the same place by all parties form a valid sharing of the right kind: masks are bits, keys and randoms are random sharings of degree at most t+l-1, zeros are degree n-1 sharings of zero, errors are zero three times in four and otherwise random. Garbling with it never runs out. No sharing appears in two places.",
  ["schedules", "inputs", "configurations"],
  "circuits (few or many gates, errors not a multiple of n), parameter sets, schedules and delays",
  "The test checks the shape for one circuit and never looks at the values.",
  [PRE, CORE], [("counting of needed material", "src/protocol/preproc.rs PreProcCount"), ("parallel generation and error computation with rotating leaders", "src/protocol/preproc.rs preproc")],
  ["preprocessing output of all parties, reconstructed independently"])

p("C12", "Garbled tables encrypt the right output label in every row",
  "For any circuit and any preprocessing material, reconstructing the garbled tables from all parties' outputs gives, for every gate and every pair of input colour bits, an LPN encryption under the sum of the two input labels of those colours (one label for inverters) of the output wire's label for the masked output bit followed by that masked bit, the masked bit being the gate's function of the unmasked inputs plus the output mask; each ciphertext symbol carries one error of the material, each used once. Evaluating the tables therefore yields exactly the circuit's outputs. This holds for any circuit shape, block fill and parameters and under every schedule.",
  ["schedules", "inputs", "programs", "configurations"],
  "circuits (all gate kinds, repeated wires, partial blocks, more than 256 blocks), masks, labels, errors, parameter sets, schedules, transports and delays",
  "The garbling tests only check the number and shape of the tables.",
  [GAR, CORE, CIRC], [("wire-wise repositioning of masks and labels, gate-wise selection and encryption", "src/protocol/garble.rs garble, garble_and, garble_xor, garble_inv"), ("block packing", "src/circuit.rs pack")],
  ["tables returned by all parties, reconstructed independently over several runs"])

p("C13", "Nothing a party sends reveals secrets: everything opened is freshly masked",
  "Whatever parties send to each other while multiplying, transforming, generating randomness, preprocessing or garbling is masked by randomness used for nothing else: shares sent for opening are uniform over all vectors consistent with a uniformly masked secret, shares dealt by a party are fresh sharings of full degree, and no two openings of a run use the same mask. Hence any t parties' view is independent of the secret values.",
  ["schedules", "inputs", "histories"],
  "all protocols, leaders, batch sizes, repetitions and schedules, with secrets held fixed and material varied",
  "Tests only look at outputs; dropping or reusing a mask changes no output.",
  [CORE, PRE, GAR, SH], [("adding a random and a zero sharing before opening", "src/protocol/core.rs reduce_degree, trans, randtrans"), ("fresh sharing by the leader", "src/sharing.rs share"), ("draining of preprocessing material", "src/protocol/garble.rs")],
  ["messages exchanged between parties"])

p("C14", "No two ciphertexts share both encryption matrix and key",
  "Within a garbled circuit, no two table rows that are encrypted under the same combination of labels use the same public matrix at the same packed position, however often and on whichever input a wire is read. All parties use the same matrices.",
  ["programs", "inputs", "schedules"],
  "circuits in which wires and wire pairs are read by many gates, on either input and at any block position",
  "Tests never look inside the tables.",
  [GAR], [("matrix chosen by how often each wire was read before", "src/protocol/garble.rs LPNMatrix")],
  ["tables of several runs on the same circuit"])

p("C15", "Stored preprocessing survives a restart unchanged, or is refused",
  "Preprocessing material written to storage and read back after a restart is equal in every field, shape and position to what was written, so that parties restarted from storage garble the same circuit correctly. A file that was cut short by a crash or a failed write is refused, never loaded as different material.",
  ["crash_points", "fault_sequences", "inputs", "histories"],
  "all crash points during writing, short reads and writes, circuits and parameters, which parties restart",
  "Nothing in the tests stores or loads preprocessing.",
  [PRE, GF], [("serialised form and conversion back", "src/protocol/preproc.rs PreProcSer"), ("fixed-width element encoding", "src/math/galois/mod.rs Serialize/Deserialize")],
  ["loaded material, and the tables garbled from it"])

p("C16", "All parties of a benchmark run terminate successfully, however timed",
  "When every party of a garbling or preprocessing run is started with consistent arguments, every party exits successfully, with or without saving results, for any number of repetitions and whatever the relative speed of parties and links. In particular a party that finishes and exits never takes with it data that another party still needs.",
  ["schedules", "configurations", "fault_sequences"],
  "all relative speeds of parties, links and socket buffers; start orders; repetitions; thread counts; with and without saving",
  "The programs have no test; a run on loopback rarely exposes data lost at exit.",
  [BG, BP, NET], [("final hand-shake through party 0", "src/bin/garble.rs, src/bin/preproc.rs benchmark"), ("background tasks writing queued messages", "src/protocol/network.rs party_sender")],
  ["exit status of each party's process"])

p("C17", "The saved results file is complete and faithful, or the run reports failure",
  "When a run is asked to save and party 0 exits successfully, the file holds valid data with the parameters the run was started with (parties, threshold, packing, circuit, LPN parameters, repetitions, threads) and one entry per party, in party order, holding what that party measured in each repetition. If the file cannot be written in full, party 0 does not exit successfully.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "arguments, party speeds, arrival orders of results, short or failing file writes",
  "The programs have no test.",
  [BG, BP], [("collection of per-party data and file writing", "src/bin/garble.rs, src/bin/preproc.rs benchmark")],
  ["saved file", "exit status", "what each party prints"])

p("C18", "A crashed or disconnected peer never causes wrong data to be accepted",
  "When parties crash or their connections are cut at any moment, every survivor still receives only complete messages, and from each crashed peer exactly a prefix of what that peer sent in each context. A protocol instance that still returns at a survivor returns the correct share; otherwise it blocks or fails, but never returns a wrong result.",
  ["crash_points", "fault_sequences", "schedules"],
  "all crash and connection-reset moments, including inside a length prefix or payload, any set of crashed parties, all schedules",
  "No test cuts a connection.",
  [NET, CORE], [("frames are delivered only when fully read", "src/protocol/network.rs party_receiver")],
  ["messages and protocol outputs at the surviving parties"])

p("C19", "Results do not depend on scheduling, worker threads or transport",
  "For fixed inputs and material, the secrets of every protocol's output and the garbled tables are the same under every task schedule, message order and network, every number of worker threads and every way parallel work is divided. Running instances concurrently gives what running them one after the other gives.",
  ["schedules", "configurations"],
  "pairs of runs of the same instance differing in schedule, delays, transport, worker count, order of parallel work and concurrency",
  "Tests never compare two executions.",
  [CORE, GAR, PRE, MATH, NET], [("order-preserving parallel collection", "src/protocol/*.rs, src/math/mod.rs"), ("results collected in creation order", "src/protocol/garble.rs garble")],
  ["reconstructed outputs of two executions"])

p("C20", "Circuit and matrix files are loaded exactly, or refused",
  "Loading a circuit or matrix file yields exactly what the file says: gates, input groups and output groups in file order, so evaluation agrees with the file's meaning. Reads that are short, interrupted or split anywhere change nothing; a file whose reading fails is refused, and so is a truncated one (fewer gates than announced, an incomplete line, matrix rows of unequal length) rather than being loaded as something else, unless what is left is itself a complete file.",
  ["inputs", "fault_sequences"],
  "generated circuit and matrix files with any number of input and output groups; all splits, interruptions, failures and truncations of reading",
  "Tests load three complete well-formed files and evaluate circuits with a single output group.",
  [CIRC, MATH], [("line-wise parsing", "src/circuit.rs from_bristol_fashion"), ("matrix parsing", "src/math/mod.rs binary_super_inv_matrix")],
  ["loaded circuit and matrix", "evaluation results"])

p("C21", "Field initialisation works in any order, for any fields, despite failures",
  "After initialisation of a field succeeds, its arithmetic and sampling are correct, whatever other fields the process initialised or used before or after, in whatever order and from however many threads. If memory runs out during initialisation it reports failure, and never afterwards claims success without the field being usable; a later attempt can succeed.",
  ["histories", "fault_sequences", "schedules"],
  "sequences of initialisations and uses of several field sizes, allocation failures at any point, concurrent initialisation",
  "Tests use one field size per process and never fail an allocation.",
  [GF, GC], [("once-only table creation", "src/math/galois/mod.rs init"), ("sampling distribution", "src/math/galois/mod.rs rand"), ("table construction", "extern/galois/galois.c galois_create_log_tables")],
  ["results of init, arithmetic and sampling"])

p("C30", "Field arithmetic satisfies the field laws",
  "Addition, multiplication, division and their compound forms on initialised fields satisfy the field axioms and agree with polynomial arithmetic.",
  ["inputs"], "all pairs of elements", "Tests sample a few values per law.",
  [GF, GC], [("log tables", GC)], ["return values"])
p("C31", "Sharing and reconstruction are inverse and detect tampering",
  "Reconstructing an unmodified sharing returns the secrets; reconstruction that checks consistency rejects any share vector not on a polynomial of the stated degree.",
  ["inputs"], "all secrets, positions, degrees and corruptions", "Tests use a few random vectors.",
  [SH], [("redundant shares compared", "src/sharing.rs recon")], ["return values"])
p("C32", "Packing and plaintext evaluation preserve the circuit's meaning",
  "Packing a circuit keeps every gate and wire exactly once in blocks of the requested size; plaintext evaluation computes the gates in order.",
  ["inputs"], "all circuits and block sizes", "Tests evaluate two arithmetic circuits.",
  [CIRC], [("block packing", "src/circuit.rs pack")], ["return values"])
p("C33", "Helper scripts generate valid parameters and matrices",
  "The parameter and matrix generation scripts output super-invertible matrices and parameters meeting the security constraints.",
  ["inputs"], "all script arguments", "The scripts have no tests.",
  ["scripts"], [("matrix search", "scripts")], ["script output"])
p("C34", "Per-party communication grows as documented with circuit and parties",
  "The communication and computation of a run stay within the asymptotic costs the protocol promises.",
  ["configurations"], "all circuit sizes and party counts", "There is no performance test.",
  [GAR, PRE], [("packing", GAR)], ["reported traffic and time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
