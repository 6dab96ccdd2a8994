#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that the statements are easy to edit).
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","A survey's decrypted answer equals the plaintext evaluation of its query",
 "For every survey the servers accept, the answer the querier decrypts contains exactly the groups that have at least one row satisfying the WHERE predicate, each once, and for each group the exact sum (or count) of every selected attribute over those rows. This holds whatever mix of clear and encrypted attributes the providers and the query use, however the rows are spread over data providers and servers, with or without proofs, and whichever server the querier talks to.",
 ["inputs","configurations"],"all small databases (values, groups, predicate outcomes), clear/encrypted attribute mixes, query shapes, roster sizes 1..3, numbers of providers per server, with and without proofs",
 "The service tests run a dozen fixed queries on one fixed data pattern with three or five servers; they never vary data, key mixes, or which rows meet on which server.",
 ["services/service.go","services/api.go","lib/store/store.go","lib/structs.go","protocols/*.go"],
 [("survey pipeline: collect, shuffle, tag, filter, aggregate, key switch","services/service.go StartService and its phases"),("row preparation","lib/structs.go EncryptDpClearResponse, lib/store/store.go InsertDpResponse")],
 ["decrypted query result"])
p("C02","A survey completes with the same answer under every message order",
 "Whatever order the network delivers the messages of a survey in (order is only preserved between each pair of servers), and whichever server finishes a phase first, the survey terminates and gives the querier the same decrypted answer.",
 ["schedules"],"all delivery orders of the inter-server messages of a survey (up to commutation of deliveries to different servers), rosters of 2 and 3 servers",
 "The tests run over a local network whose timing is essentially one schedule; reordering across links, early phase-completion notices and late participants are never forced.",
 ["services/service.go","protocols/*.go"],
 [("survey creation acknowledgement, query broadcast and phase-completion channels","services/service.go HandleSurveyCreationQuery, HandleSurveyResultsQuery, HandleDDTfinished, StartService"),("per-protocol child collection","protocols/*.go Dispatch")],
 ["decrypted query result","termination"])
p("C03","Every acknowledged upload is counted exactly once under concurrency",
 "When data providers upload to a server concurrently with each other and with the querier's request for the results, every upload that was acknowledged is counted exactly once in the answer, and none is lost, duplicated, mixed with another or able to crash the server.",
 ["schedules"],"all interleavings, up to a preemption bound, of concurrent uploads and of the results request on one server",
 "Tests upload sequentially; lost updates on the shared survey record need particular interleavings of request handlers.",
 ["services/service.go","lib/store/store.go","lib/structs.go"],
 [("survey registry and response store","services/service.go PushData, HandleSurveyResponseQuery, HandleSurveyResultsQuery; lib/store/store.go InsertDpResponse")],
 ["acknowledgements and decrypted query result"])
p("C04","Surveys running on the same servers do not interfere",
 "Any number of surveys may be created, fed and queried on the same servers, one after another or interleaved in any order; each answer depends only on the data uploaded for that survey and is encrypted for that survey's querier.",
 ["histories","schedules"],"all interleavings of the client operations of two surveys, and of their server messages up to a bound, including different queries, keys and data",
 "One test runs concurrent surveys once with a free-running schedule and identical queries.",
 ["services/service.go","lib/store/store.go","protocols/*.go"],
 [("per-survey state keyed by survey identifier","services/service.go castToSurvey, putSurvey, NewProtocol")],["decrypted query results"])
p("C05","Encryption, decryption and homomorphic operations are exact",
 "Decrypting with the matching key returns exactly the encrypted value, and adding, subtracting or scaling ciphertexts (or vectors of them, of any length) gives a ciphertext of the sum, difference or product of the plaintexts, without altering its operands. Encrypting the same value twice gives different ciphertexts and a zero test is true exactly for zero.",
 ["inputs"],"all small plaintexts including negative ones, all randomness in a small group, vector lengths around the internal work-split sizes",
 "Tests check a couple of constants on short vectors; the work-splitting code behaves differently around its chunk size.",
 ["lib/crypto.go"],[("ElGamal on exponents, chunked vector operations","lib/crypto.go")],["decrypted values"])
p("C06","Decryption does not depend on earlier or concurrent decryptions",
 "The value returned by a decryption (of non-negative values, or of positive and negative values with the signed variant) is the plaintext for every value within the supported range, whatever values were decrypted before, in whatever order and by whichever signed or unsigned operation, and whatever decryptions run at the same time; building the decryption table beforehand never changes a result.",
 ["histories","schedules"],"all sequences up to a depth of signed/unsigned decryptions and table constructions over a small value alphabet, and all interleavings of concurrent decryptions up to a preemption bound",
 "The lookup table is process-wide and grows with use; tests exercise one order of requests.",
 ["lib/crypto.go"],[("shared discrete-log table","lib/crypto.go discreteLog, CreateDecryptionTable")],["decrypted values"],None,[("discrete log table","point to integer map and its frontier","lib/crypto.go PointToInt, currentGreatestInt")])
p("C07","Key switching re-encrypts to the target key without changing values",
 "After key switching, every ciphertext decrypts under the target secret to the same value as it did under the servers' collective key, in the same order, for any number of ciphertexts and servers, any tree over the servers and any message order, and the target holder alone (without server keys) can decrypt.",
 ["inputs","configurations","schedules"],"all tree shapes over 1..4 servers, vector lengths including 0, 1 and chunk boundaries, all delivery orders, small keys and plaintexts",
 "Tests use one tree, one vector and one message timing.",
 ["lib/key_switch/key_switch.go","protocols/key_switching_protocol.go"],[("per-server contributions summed up the tree","lib/key_switch/key_switch.go KeySwitchSequence; protocols/key_switching_protocol.go")],["decrypted output vector"])
p("C08","Shuffling keeps the multiset of rows and re-randomises every ciphertext",
 "The output of a shuffle (by one server or by the whole tree of servers, with fresh or precomputed randomness) contains exactly the input rows, each once, with the columns of a row kept together and in order, and every ciphertext of the output is re-randomised (different from every input ciphertext while decrypting to the same value).",
 ["inputs","configurations","schedules"],"all permutations of up to 4 rows, 1..3 columns, tree shapes over 1..4 servers, with and without precomputation, larger lists around chunk sizes",
 "Tests shuffle one list with one random permutation and compare against the permutation the same call returned.",
 ["lib/shuffle/shuffle.go","protocols/shuffling_protocol.go","protocols/tools_protocol.go"],[("Neff shuffle","lib/shuffle/shuffle.go ShuffleSequence"),("chained shuffle over the tree","protocols/shuffling_protocol.go")],["decrypted output rows"])
p("C09","Deterministic tags are equal exactly when the plaintexts are equal",
 "Two values tagged within the same survey get equal tags if and only if their plaintexts are equal, whichever server's request they were tagged in, whatever the ciphertext randomness, the position in the list, the tree over the servers and the message order; tagging also keeps the order and number of the values. The same holds for the combined shuffle-and-tag protocol up to its shuffle.",
 ["inputs","configurations","schedules"],"all small plaintext vectors, tree shapes over 1..4 servers, every root, delivery orders, list sizes around chunk boundaries",
 "Tests tag one vector once from one root.",
 ["lib/deterministic_tag/deterministic_tag.go","protocols/deterministic_tagging_protocol.go","protocols/shuffling+ddt_protocol.go"],[("per-server addition of a secret and re-encryption","lib/deterministic_tag, protocols/deterministic_tagging_protocol.go")],["tag equality relation"])
p("C10","Serialised objects decode to equal objects",
 "Encoding any ciphertext, vector, point list, response, grouping key or published proof with the library's encoders and decoding the result with the matching decoder gives back an equal object, for every shape including empty and absent components and numbers of any sign or size.",
 ["inputs"],"all shapes up to a size bound of every serialisable type, numbers from a boundary alphabet",
 "Tests round-trip one mid-sized instance of each type; empty parts, missing parts and multi-digit or negative numbers are not covered.",
 ["lib/crypto.go","lib/structs.go","lib/*/*_proofs.go","lib/shuffle/structs.go","lib/tools/tools.go","protocols/tools_protocol.go"],[("hand-written length-prefixed encoders","ToBytes/FromBytes families")],["decoded object"])
p("C11","Malformed encodings are rejected with an error, never a crash",
 "Decoding a truncated, extended or corrupted encoding of a ciphertext, ciphertext vector, point list or serialised scalar or point with a decoder that reports errors never crashes the process: it returns an error, or an object that re-encodes to the decoded bytes.",
 ["inputs","fault_sequences"],"every truncation, every one-byte corruption over a byte alphabet and every small length mismatch of valid encodings",
 "Tests only decode what they just encoded.",
 ["lib/crypto.go","lib/structs.go"],[("decoders","lib/crypto.go FromBytes, Deserialize, FromBytesToAbstractPoints, DeserializePoint, DeserializeScalar")],["error or decoded object"])
p("C12","Honestly generated proofs verify",
 "Every proof produced by an honest server for aggregation, key switching, shuffling, deterministic tagging, tag addition or server addition/removal verifies, for any input sizes and values, alone or in a list, before and after serialisation.",
 ["inputs"],"all proof kinds, plaintext alphabets, list sizes including chunk boundaries, permutations of small shuffles, direct and after an encode/decode round trip",
 "Tests verify one proof of each kind, without serialisation for most.",
 ["lib/*/*_proofs.go"],[("proof creation and verification","lib/*/*_proofs.go")],["verification verdict"])
p("C13","A proof does not verify for an altered statement",
 "If any ciphertext, public key, tag or result in the published statement of a valid proof (or of one element of a proof list that is fully verified) is replaced by a different one so that the claimed operation no longer holds, or proofs and statements of different elements are exchanged, verification fails.",
 ["inputs","fault_sequences"],"every single-field alteration (another group element, exchange of two components, exchange between two proofs, dropped or duplicated rows) of every published proof kind at small sizes",
 "Tests alter one field of one proof kind.",
 ["lib/*/*_proofs.go"],[("zero-knowledge predicates and equality checks","lib/*/*_proofs.go")],["verification verdict"])
p("C14","List verification checks the requested share of the proofs",
 "Verifying a list of proofs with a given share accepts if and only if all proofs in the checked part are valid; a share of 1 checks every proof of the list, a smaller share checks at least the corresponding number of distinct elements, and no list size or share crashes verification.",
 ["inputs"],"all list sizes up to a bound and around work-split sizes, all positions of an invalid proof, a grid of shares between 0 and 1, all proof kinds",
 "Tests use short lists with all proofs valid and share 1.",
 ["lib/*/*_proofs.go"],[("list verification loops","lib/*/*_proofs.go *ListProofVerification")],["verification verdict"])
p("C15","Collective aggregation returns the exact per-group sums over all servers",
 "Aggregating the local results of all servers over any tree gives, at the root, every group that any server holds, each once, with the exact attribute-wise sum over the servers holding it; servers with no data, disjoint groups, any message order and any number of groups do not change that.",
 ["inputs","configurations","schedules"],"all assignments of small group sets to up to 4 servers, all tree shapes, all delivery orders, grouped and ungrouped modes",
 "Tests use one fixed data set with the same shape on each server and one timing.",
 ["protocols/collective_aggregation_protocol.go"],[("children's messages merged into the local map","protocols/collective_aggregation_protocol.go ascendingAggregationPhase")],["decrypted groups and sums at the root"])
p("C16","Concurrent local computations keep their results apart",
 "Several instances of the local aggregation, local clear aggregation, server addition/removal and proof verification protocols running in the same process, in any interleaving, each return the result of their own inputs and terminate.",
 ["schedules"],"all interleavings of two or three instances of each protocol up to a preemption bound",
 "Tests run one instance at a time.",
 ["protocols/utils/*.go"],[("result channel between Start and Dispatch","protocols/utils/*.go")],["results per instance"])
p("C17","Adding or removing a server moves data exactly to the new collective key",
 "After a server's key is added to or removed from the collective key, every transformed ciphertext decrypts under the new collective secret to the value it had under the old one, for any number of responses and attributes, and adding then removing the same server restores the original decryption.",
 ["inputs"],"all small vectors, plaintexts and keys, list sizes around work-split sizes, add/remove sequences up to a depth",
 "The test transforms one fixed list once.",
 ["protocols/utils/addrm_server_protocol.go","lib/add_rm/add_rm_proofs.go"],[("per-ciphertext key adjustment","protocols/utils/addrm_server_protocol.go")],["decrypted values"])
p("C18","The server store delivers everything inserted exactly once",
 "Responses inserted in a server's store are handed to the next phase exactly once, in aggregate per grouping key where aggregation applies, whatever the sequence of insertions and retrievals; data already retrieved is never changed by later operations, and results delivered with noise differ from the aggregate by exactly that noise.",
 ["histories"],"all sequences up to a depth of the store's insert and retrieve operations over a small alphabet of responses",
 "Tests insert then retrieve each kind once.",
 ["lib/store/store.go"],[("per-survey store","lib/store/store.go")],["retrieved responses, decrypted"])
p("C19","Aggregation of clear data is exact",
 "Aggregating clear-text responses before encryption (locally by a provider, or in the data-preparation tools) gives for every distinct combination of grouping and filtering values exactly one response with the attribute-wise sum, keeps everything else, and does not depend on the order of the input.",
 ["inputs"],"all multisets of up to 4 small responses with 0..2 grouping, filtering and summed attributes, values including 0 and multi-digit numbers",
 "Tests aggregate one fixed list.",
 ["lib/store/store.go","lib/structs.go","protocols/utils/local_clear_aggregation_protocol.go"],[("map keyed by grouping and filtering values","lib/store/store.go AddInClear; lib/structs.go AddInMap, Key, UnKey")],["aggregated responses"])
p("C20","Survey data survives the file round trip and its expected result is right",
 "Data written to a data file and read back is identical for every provider, the enumeration of all possible groups is complete and free of duplicates, generated data has the requested shape, and the computed expected result is the true aggregate of that data; comparing results succeeds exactly for equal results.",
 ["inputs"],"all small data sets and group-type lists, all small shapes of the generator, pairs of result lists up to a bound",
 "Tests use one data set.",
 ["data/handle_data.go"],[("test data toolkit","data/handle_data.go")],["files, returned data"])
p("C21","Noise lists have the requested size and follow the quantised distribution",
 "A generated noise list has exactly the requested length, is symmetric in that a positive value occurs as often as its opposite up to the quantisation, contains only multiples of the quantum within the limit, is scaled as requested, and generation always terminates.",
 ["inputs"],"a grid of list sizes, means, scales, quanta and limits",
 "The test prints one list.",
 ["lib/differential_privacy/diff_privacy.go"],[("quantised Laplace sampling","lib/differential_privacy/diff_privacy.go GenerateNoiseValues")],["generated list"])
p("C22","The command line accepts exactly well-formed queries and builds that query",
 "A query given on the command line is accepted if and only if it is well formed, and an accepted query is translated to exactly the attributes, counting flag, predicate and grouping that were typed, with every WHERE value attached to its attribute.",
 ["inputs"],"all token sequences up to a bound over an alphabet of valid and invalid fragments for each of the query's parts",
 "The CLI has no functional test of its parser.",
 ["cmd/unlynx/client.go"],[("query parsing","cmd/unlynx/client.go parseQuery, checkRegex")],["parsed query or error"])
p("C23","Shuffle precomputation never changes results, even across restarts and crashes",
 "Precomputed shuffle randomness read from a file gives the same results as fresh randomness: it always belongs to the requested collective key and is long enough for the request, and a file left by another survey configuration or by a crash during writing does not cause wrong results or a permanent failure.",
 ["crash_points","histories"],"all crash points (truncations) of the written file, all two-step histories over collective keys and line sizes",
 "Tests always start without a file.",
 ["lib/shuffle/shuffle.go","lib/shuffle/structs.go","lib/tools/tools.go"],[("gob cache file","lib/shuffle/shuffle.go PrecomputationWritingForShuffling; lib/tools/tools.go WriteToGobFile, ReadFromGobFile")],["precomputation contents, shuffle output"])
p("C24","Key generation and secret splitting are consistent",
 "The collective public key is the sum of the generated public keys and corresponds to the sum of the private keys, each private key matches its public key, and splitting a secret gives the requested number of shares that sum to it, leaving the secret itself unchanged.",
 ["inputs"],"all numbers of keys and shares up to a bound, all secrets and share randomness of a small group",
 "Tests split one scalar.",
 ["lib/crypto.go"],[("key helpers","lib/crypto.go GenKeys, SplitScalar")],["keys and shares"])
p("C25","Filtering keeps exactly the rows that satisfy the predicate",
 "The WHERE filter applied to tagged rows keeps exactly the rows for which the query's boolean expression holds when each operand is replaced by the tag of that row or of the query, in order and unmodified, with all their grouping and aggregating attributes; an expression that cannot be evaluated to true or false is reported as an error, not a crash or a silent result.",
 ["inputs"],"all boolean expressions up to a depth over ==, !=, &&, ||, all equality patterns of up to 3 WHERE attributes, 0..3 rows",
 "Tests filter one data set with two predicates.",
 ["services/service.go"],[("predicate evaluation","services/service.go FilterResponses")],["filtered rows"])
p("C26","A lost message never produces a wrong answer",
 "If any single inter-server message of a survey is lost, the survey either still gives the right answer or gives none (an error, or no reply); the querier never receives an answer that differs from the plaintext evaluation, the other servers do not crash, and a later survey on the same servers still gets its right answer.",
 ["fault_sequences"],"every single lost message of a survey over 2 and 3 servers",
 "Tests never lose a message.",
 ["services/service.go","protocols/*.go"],[("timeouts on waiting for children and notices","services/service.go, protocols/*.go")],["reply to the querier"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
