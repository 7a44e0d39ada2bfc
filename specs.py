"""The properties and the parameters of their checks. gen.py turns this into
properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
             level="model_checking", built=True, modes=["plain"], rule="", bounds={}, note="", assumptions=[],
             technique="explicit-state model checking of the implementation against a reference model",
             hook=None, observe=[])
    d.update(kw)
    P.append(d)


ED = "keys are Ed25519 and signatures are assumed unforgeable: a forger is modelled by another key under the same key id"
PUB = "entities answer through a model network in place of the HTTP transport"
VT = "time is the virtual clock of a testing/synctest bubble"

prop("C01", "Only authentic trust chains are accepted",
     "Every trust chain that resolution accepts starts with the requested entity's own configuration, ends with the configuration of a configured trust anchor, and connects every statement to the next one up by issuer and subject. Each statement in it is signed with keys that the statement above it vouches for, and the trust anchor's statements with its pinned keys where keys are pinned, otherwise with those in its own configuration. No forged, mistyped, missing, mismatched or replaced statement anywhere in the federation leads to a chain that breaks this.",
     ["inputs", "configurations", "fault_sequences"],
     "every federation topology within the bounds, with up to k faulty statements anywhere in it, for unpinned, rightly and wrongly pinned trust anchors and every starting entity",
     "tests resolve a few fixed healthy federations; each forged or mismatched statement is a different combination of position, fault and topology",
     ["trustresolver.go", "trustchain.go", "entitystatement.go", "internal/jwx/jws.go", "trustanchor.go"],
     [("trustTree.verifySignatures", "trustresolver.go"), ("trustTree.resolve", "trustresolver.go"), ("EntityStatement.Verify", "entitystatement.go")],
     rule="every placement of up to k faults (14 kinds per entity configuration, 12 per subordinate statement) on the statements of 7 federations, with two keys per entity every choice of signer and of vouched keys, lines of up to 10 authorities with extra hints and faults, fans of authorities, and every authority-hint graph over 5 entities, x anchor sets, pins and start entities; a state is a distinct (configuration, answer) pair",
     bounds={"quick": "up to 2 faults; 16384 hint graphs x 3 anchor sets x 3 starting entities", "thorough": "up to 3 faults; 131072 hint graphs x 3 x 3"},
     note="Exhaustive within the bounds against an independent verifier and reference resolver.", assumptions=[ED, PUB, VT])

prop("C02", "Every valid trust chain is found, and resolution terminates",
     "For any graph of authority hints, cycles, self references and shared superiors included, resolution terminates and returns every valid trust chain from the starting entity to each configured trust anchor. A superior that is unreachable, invalid or excluded removes only the chains through it and never another valid chain.",
     ["inputs", "configurations", "fault_sequences"],
     "every hint graph over the bounded set of entities and every placement of up to k faulty statements",
     "tests resolve a handful of acyclic federations; loops, diamonds and partial failures interact in exponentially many ways",
     ["trustresolver.go", "trustchain.go"],
     [("trustTree.resolve", "trustresolver.go"), ("trustTree.chains", "trustresolver.go")],
     rule="as C01, judged for completeness and termination (bounded request count)",
     bounds={"quick": "up to 2 faults; 16384 hint graphs x 3 x 3", "thorough": "up to 3 faults; 131072 hint graphs x 3 x 3"},
     note="Exhaustive within the bounds against a reference resolver.", assumptions=[ED, PUB, VT])

prop("C03", "Constraints set by superiors bind every chain below them",
     "A trust chain is accepted only if it satisfies the constraints of every subordinate statement in it: no more intermediates below the setter than its maximum path length, every entity identifier below it inside the permitted and outside the excluded names (a name with a leading dot standing for all subdomains, any other for exactly that host, without regard to case), and only allowed entity types, custom ones included, for the entities below. A chain that satisfies them all is not rejected on account of constraints.",
     ["inputs", "configurations"],
     "every combination of the listed constraint values on any of the subordinate statements of the bounded topologies, and every combination of entity types below",
     "tests have a few single-constraint examples; constraints at several levels and siblings sharing ancestors are not covered",
     ["trustresolver.go", "entitystatement.go"],
     [("trustTree.checkConstraints", "trustresolver.go"), ("Metadata.GuessEntityTypes", "metadata.go")],
     assumptions=[ED, PUB, VT], 
     rule="every placement of up to k deviating constraint values (4 path lengths, 9-16 naming constraints, 8 entity type lists per subordinate statement; 5 leaf and 2 intermediate entity-type sets) on 5 federations under 2 naming schemes, resolved without and with requested entity types; maximum path lengths on lines of up to 7 (thorough 9) steps; 11 hosts x sets of up to k of 28 name patterns; sets of entity types x all 128 lists of allowed types",
     bounds={"quick": "up to 2 deviations", "thorough": "up to 3 deviations, longer value lists"},
     note="Exhaustive within the bounds against a reference reading of the constraints.")

prop("C04", "Nothing outside its validity time is relied upon",
     "At the time of a resolution every statement of every accepted chain has been issued and has not expired, also when statements, trust trees, chains or metadata came out of a cache filled earlier. Looking up a single statement does not return one outside its validity either. The expiry reported for a chain is that of its earliest-expiring statement, and a resolved metadata answer exists exactly when a valid chain does.",
     ["inputs", "histories"],
     "every combination of validity windows of all statements in the bounded federations, and resolutions repeated at later times over one cache",
     "tests use statements that are valid for the whole test run; expiry in the middle of cached state needs a virtual clock and many windows",
     ["trustresolver.go", "trustchain.go", "entitystatement.go", "metadata_resolver.go", "cache/cache.go"],
     [("EntityStatementPayload.TimeValid", "entitystatement.go"), ("cacheSetEntityStatement", "trustresolver.go")],
     rule="validity windows of all statements (up to k differing from the default) x waiting times, three rounds of resolution with one cache",
     bounds={"quick": "8 windows, up to 3 statements deviating, 5 waits, 3 federations", "thorough": "up to 4 statements deviating"},
     note="Exhaustive within the bounds, on a virtual clock.", assumptions=[ED, PUB, VT, "a statement without exp is a don't-care"])

prop("C05", "Caching never changes an answer",
     "For any history of resolutions with different trust anchors, pinned keys, entity types and resolver objects over one shared cache, each answer only contains chains that would be accepted from scratch from the statements then cached or served, and contains every chain that both the cached and the served statements support. In particular keys pinned by one resolver, its entity types, or an unverified intermediate result never leak into the answer of another.",
     ["histories", "configurations"],
     "every history of up to the stated length over resolutions with 5 resolver configurations, stepwise use, reuse of resolver objects, passing time, outages, key changes and re-issued statements",
     "tests reset or ignore the cache; leaks need two differently configured resolutions with particular events between",
     ["trustresolver.go", "trustchain.go", "cache/cache.go"],
     [("TrustResolver.hash", "trustresolver.go"), ("cacheSetTrustTree / cacheSetTrustChains", "trustresolver.go")],
     rule="all operation histories of the stated length over 16 operations that end with a resolution",
     bounds={"quick": "length 4", "thorough": "length 5"},
     note="Exhaustive within the bounds against a reference statement cache.", assumptions=[ED, PUB, VT])

prop("C06", "Background refresh replaces statements before they expire, never harms",
     "Using a cached statement that expires within the configured grace period, and of whose lifetime at least the configured part has elapsed, triggers a re-fetch in the background; when it succeeds, later uses see the newly published statement, so that a change of keys or metadata arrives before the old statement expires. Before that point no re-fetch happens. The use that triggers it neither waits for it nor depends on it, and a re-fetch that fails, or gives something that is not a currently valid statement of the same issuer about the same subject, leaves the cached statement in use until its own expiry.",
     ["histories", "schedules", "fault_sequences"],
     "every refresh setting, lifetime, age, time of use and outcome of the background fetch within the bounds",
     "tests never run the background refresh at all",
     ["trustresolver.go"],
     [("getEntityStatementOrConfiguration", "trustresolver.go"), ("obtainAndSetEntityStatementOrConfiguration", "trustresolver.go")],
     rule="histories of uses of one cached statement (entity configuration or subordinate statement) at 5 points of its lifetime each, with up to k deviations among lifetime, age when fetched, grace period, elapsed factor, duration of the fetch and 10 behaviours of the endpoint per use; and a key change in a federation resolved before, during and after the refresh, with and without cached chains",
     bounds={"quick": "3 uses, up to 2 deviations", "thorough": "4 uses, up to 3 deviations"},
     note="Exhaustive within the bounds against a reference cache, on a virtual clock.",
     assumptions=[ED, PUB, VT, "two re-fetches of one statement at the same time, and a signature that only the superior's keys could tell is wrong, are don't-cares"])

prop("C07", "Policies combine so that the result is never more permissive",
     "Combining the metadata policies of a chain gives a policy under which every metadata that passes satisfies each of the combined policies' restrictions, values imposed by value and defaults that survive are exactly those the superiors set, and operator combinations that contradict each other are refused. Combining does not depend on how the chain is grouped, an unconstrained level changes nothing, and an unknown operator is ignored, or refuses the chain if a superior marked it as critical.",
     ["inputs"],
     "every pair and triple of policy entries over the operator and value alphabets",
     "tests check the published test vectors only",
     ["metadataPolicy.go", "policyoperators.go", "policyverifiers.go"],
     [("MergeMetadataPolicies", "metadataPolicy.go"), ("PolicyOperator.Merge", "policyoperators.go")],
     rule="all policy entries with up to k operators in total (8 operators, 1-5 operands each) on 2 and on 3 levels, for list, string, boolean and integer parameters, merged in every grouping and applied to every value of the alphabet; up to 4 (thorough 6) levels with policies for 8 (12) parameters of 6 entity types, up to k deviating; and 3-level chains resolved with policies and critical operators on every level; a state is a distinct (merged entry, value, carrier)",
     bounds={"quick": "up to 4 operators over 2, 3 over 3 levels; chains with up to 2", "thorough": "up to 5 over 2, 4 over 3 levels; chains with up to 3"},
     note="Exhaustive within the bounds against a reference merge and application over generic JSON; every result is also checked against each level's own restrictions.",
     assumptions=["an operator on a parameter type it is not defined for is a don't-care, as is the metadata claim of subordinate statements, which the library does not implement"])

prop("C08", "Resolved metadata obeys the combined policy",
     "Applying a policy entry to a metadata claim either fails or yields a claim that satisfies every operator in it: value imposed, additions present, default filled only when absent, one_of, subset_of, superset_of and essential satisfied, in that order. The same claim and policy give the same result for every entity type, and for typed and custom parameters.",
     ["inputs"],
     "every combination of operators over the value alphabet applied to every claim value in it, for typed and custom metadata parameters",
     "tests check the published vectors through one claim each",
     ["metadataPolicy.go", "policyoperators.go", "metadata.go"],
     [("MetadataPolicyEntry.ApplyTo", "metadataPolicy.go"), ("applyPolicy", "metadata.go")],
     rule="all policy entries with up to 7 operators on one level and up to k on two levels, applied to every value of the alphabet (absent, null, empty, single, several, overlapping), for 26 parameters: lists, strings, booleans, integers and scopes, in all six typed entity types, as custom parameters and in custom entity types; and policies for 8 (12) parameters of 6 entity types at once",
     bounds={"quick": "7 operators on one level, up to 3 over two", "thorough": "up to 4 over two levels"},
     note="Exhaustive within the bounds against a reference application.",
     assumptions=["an absent parameter and one with a zero value are not told apart in typed metadata", "an operator on a parameter type it is not defined for is a don't-care"])

prop("C09", "Evaluating one chain never changes another's metadata",
     "Computing metadata, merging policies, filtering and sorting chains leave the statements, metadata and policies they work on exactly as they were, so that repeating or reordering evaluations, or evaluating chains that share statements, always gives the same results.",
     ["inputs", "histories"],
     "every order of evaluating the chains of federations whose chains share statements and policies, evaluated once and again",
     "tests evaluate each chain once in a fresh process",
     ["trustchain.go", "metadata.go", "metadataPolicy.go", "policyoperators.go", "internal/utils/slices.go"],
     [("TrustChain.Metadata", "trustchain.go"), ("ReflectUnion", "internal/utils/slices.go")], assumptions=[ED, PUB, VT],
     rule="every placement of up to k policy entries on the subordinate statements of a federation with 4 chains that share statements, for typed and custom parameters, each chain evaluated repeatedly in several orders, filtered and sorted; a state is a distinct (configuration, evaluation, order)",
     bounds={"quick": "up to 2 deviations with 8 entries, up to 3 with 4 entries", "thorough": "up to 2 with 8 entries, up to 5 with 4 entries"},
     note="Exhaustive within the bounds against a reference merge and application per chain.")

prop("C10", "No remote document can crash the library",
     "Whatever an entity in the federation, a trust mark issuer, an OP or an API client sends, however malformed or ill-typed, correctly signed or not, the library answers with an error or ignores the part concerned: it never panics or loops.",
     ["inputs", "fault_sequences"],
     "every structural mutation of every node of every document the library reads, in each of the operations that reads it, every pair of policy operators with every shape of operand and value, every odd key with every algorithm",
     "tests feed well-formed documents; crashes come from fields absent, null or of another type at one of hundreds of places",
     ["trustresolver.go", "metadata.go", "metadataPolicy.go", "policyoperators.go", "trustmark.go", "discovery.go", "authcode.go", "jwks/jwks.go"],
     [("UnmarshalJSON of the document types", "metadata.go")],
     rule="15 documents of a federation (configurations, statements, mark, delegation, listings, resolve and collection answers, token and error answers), in each every JSON node removed, replaced by each of a list of values, extended by an odd member or replaced by an odd key set; every odd JWT (58), JSON text and HTTP answer (40) in place of each document; each followed by the whole battery of operations reading it on a cold and on a warm cache (with refreshes in the background); odd identifiers in every request; every pair of policy operators x shapes of operands x parameters, combined and merged, applied to every shape of value; every kind of odd key x algorithm x signature length; a state is a distinct document with what the operations gave",
     bounds={"quick": "one mutation, 15 values and 2 deep nestings; 10 operand shapes on 8 parameters; the operations that read the document, on a warm cache for removed and null nodes", "thorough": "23 values, pairs of mutations of top-level members, 20 operand shapes on 13 parameters, all operations after each mutation"},
     note="Exhaustive within the bounds; the oracle is that no operation panics, that all end within a bounded number of requests (3000) and that no goroutine of the library is left blocked.",
     assumptions=["federations are finite: a party that generates ever new superiors or listings is not modelled"])

prop("C11", "Signed documents are bound to their type and keys",
     "A signed document is accepted only if its single signature verifies under one of the expected keys with an asymmetric algorithm and its type header is the one required for that kind of document; no document of one kind is ever accepted as another. (A resolve response comes from the resolve endpoint itself, there is no expected key; its type is required all the same.) Everything the library signs carries the required type, key id and algorithm and is accepted by its own verification with the published keys and no others.",
     ["inputs"],
     "every combination of document kind, type header, algorithm, key, key id and serialization with every verification entry point",
     "tests only verify documents the library made for that purpose",
     ["internal/jwx/jws.go", "jwtsigning.go", "entitystatement.go", "trustmark.go", "jwks/jwks.go"],
     [("jwx.VerifyWithSet", "internal/jwx/jws.go"), ("ParsedJWT.VerifyType", "internal/jwx/jws.go")],
     rule="4 kinds of documents x keys of 5 kinds with their algorithms, x every set of up to k deviations among 11 type headers, 18 algorithm headers, 5 key ids, 13 ways to make the signature, 15 key sets and 16 forms of the document; all algorithms x 6 signers x 2 ways to make the signer, each document presented to every verification with every key; a state is a distinct document with its verification",
     bounds={"quick": "k = 2, 6 of the 10 algorithms", "thorough": "k = 3, all 10 algorithms"},
     note="Exhaustive within the bounds against a JOSE implementation of the harness on the standard library.",
     assumptions=["signatures are unforgeable", "what happens without a matching key id, to keys marked for other uses or algorithms, to a header whose algorithm is not that of the key, and to unknown critical headers is a don't-care as long as the signature verifies"])

prop("C12", "Only trust marks backed by the trust anchor verify",
     "A trust mark verifies only if it is a valid, unexpired trust mark of the claimed type about the entity presenting it, signed by the keys of its issuer as vouched for by the trust anchor; where the trust anchor lists issuers for the type the issuer is among them, and where it names an owner for the type the mark carries a valid, unexpired delegation from that owner to that issuer for that type. A trust mark that satisfies all of this verifies.",
     ["inputs", "configurations"],
     "every combination of faults in mark, delegation, issuer, owner and trust anchor configuration within the bounds",
     "tests verify a few listed cases; a bypass is a particular combination of fields across three documents",
     ["trustmark.go", "entitystatement.go"],
     [("TrustMarkInfo.VerifyFederation", "trustmark.go"), ("TrustMarkInfo.VerifyExternal", "trustmark.go"), ("LocalMetadataResolver.ResolveResponsePayload", "metadata_resolver.go")],
     rule="4 base configurations (issuers listed or not, owner named or not) x up to k deviations among 23 fields of the mark, its delegation, the anchor's issuer and owner lists, the issuer's chain and the other marks presented, verified at three times over one cache through every entry point and in the answer about the presenting entity; every sequence of contents of one TrustMarkInfo; a state is a distinct (time, reasons) or (content, verdict)",
     bounds={"quick": "up to 2 deviations; sequences of 3 contents", "thorough": "up to 3 deviations; sequences of 4"},
     note="Exhaustive within the bounds against an independent verifier working on the raw documents. A key that the issuer's own configuration adds without its superior vouching for it is not judged.",
     assumptions=[ED, PUB, VT])

prop("C13", "Issued trust marks and delegations verify and say what was asked",
     "A trust mark issued for a subject and type names exactly that issuer, subject and type with the configured or requested lifetime, logo and reference, carries the delegation it was configured with, and is refused for types not configured; a delegation likewise. What is issued verifies against a trust anchor that authorises it, for as long as its lifetime lasts and not after.",
     ["inputs", "configurations"],
     "every combination of trust mark specification, requested lifetime and trust anchor configuration within the bounds",
     "tests issue one mark per scenario",
     ["trustmark.go", "jwtsigning.go"],
     [("TrustMarkIssuer.IssueTrustMark", "trustmark.go"), ("TrustMarkOwner.DelegationJWT", "trustmark.go")],
     rule="every configuration of issuer and specification (lifetime, logo, reference, delegation, owner) within k deviations x requests of subject, type and lifetime, each issued mark checked field by field and verified against the anchor that authorises it before and after its expiry; a state is a distinct (configuration, request, claims issued)",
     bounds={"quick": "up to 2 deviations, 2 requests per issuer", "thorough": "up to 3 deviations, 3 requests per issuer"},
     note="Exhaustive within the bounds; signatures are checked by the harness's own JOSE implementation.",
     assumptions=[ED, VT])

prop("C14", "An entity always publishes its current, valid trust marks",
     "A self-refreshing trust mark publishes at all times the last mark it obtained that is not expired and is of its type and subject; it replaces it from the trust mark endpoint before it expires, a failing or misbehaving endpoint never removes or replaces a still-valid mark, and an expired mark is not published. Concurrent publications see one consistent mark and cause no more than one refresh at a time.",
     ["histories", "schedules", "fault_sequences"],
     "every history of time steps, publications and endpoint behaviours, and every interleaving of concurrent publications within the bounds",
     "no test runs the refresher",
     ["trustmark_refresher.go", "federation.go"],
     [("EntityConfigurationTrustMarkConfig.TrustMarkJWT", "trustmark_refresher.go")],
     modes=["sched", "race"], budget={"quick": 300, "thorough": 780},
     rule="11 kinds of configured mark x type, issuer, refresh and self-issuance settings x 3 endpoint behaviours; 6 ways to configure the mark x 3 lifetimes x every sequence of waits out of 5 between publications x up to k deviations among 14 behaviours of the endpoint, 4 of the issuer's configuration, minimum lifetime and grace period; every interleaving, at statement granularity and up to a delay bound, of two concurrent publications (and the refreshes they start) in 20 situations; a state is a distinct (configuration, remaining lifetime, time since the last attempt) or (situation, switches, marks published)",
     bounds={"quick": "4 publications, k = 1; delay bound 2", "thorough": "5 publications, k = 2; delay bound 3"},
     note="Exhaustive within the bounds on the real code under virtual time and a controlled scheduler; data races, which the scheduler cannot show, are looked for with the race detector in 8 further configurations of free-running publications.",
     assumptions=[ED, VT, "at most one attempt a minute is expected", "marks with lifetimes of less than a minute are not judged"])

prop("C15", "Custom policy operators and verifiers take part like the built-in ones",
     "A policy operator registered by the program is merged along the chain with its own merge function, applied exactly once, with the combined value, at its place in the operator order, and refused beside every operator that it or the other one does not combine with; a registered verifier sees every combined entry; errors of either refuse the chain. A critical operator is accepted exactly if it is in the order, and what is not registered has no effect unless it is critical or in the order. Registering and using operators changes none of the others.",
     ["inputs", "histories"],
     "every combination of custom and built-in operators over the value alphabet, on every level, in every operator order, with every verifier, for typed and custom parameters",
     "tests register no operator; what goes wrong depends on the position in the order, the other operators of the entry and what was combined before",
     ["policyoperators.go", "policyverifiers.go", "metadataPolicy.go", "metadata.go", "trustchain.go"],
     [("RegisterPolicyOperator", "policyoperators.go"), ("MetadataPolicyEntry.Verify", "metadataPolicy.go"), ("MetadataPolicyEntry.ApplyTo", "metadataPolicy.go")],
     rule="six custom operators (of own types and made by the constructor; not idempotent, removing, filling, restricting, exclusive), an unknown and an unregistered one beside the built-in ones: all entries with up to k operators on one to three levels, applied to every value, for list, string and number parameters in typed metadata, custom parameters and custom entity types, in 7 orders of the operators and with 6 verifiers; policies and critical operators on the levels of a chain, resolved twice; an operator registered again before and between combining and applying; policies made by the program from Go values; a state is a distinct entry with its value, order and verifier",
     bounds={"quick": "k = 4 on one and two levels, 3 on three levels and in chains", "thorough": "k = 6 on one level, 5 on two, 4 on three levels and in chains"},
     note="Exhaustive within the bounds against a reference merge and application; the calls of the operators' functions are compared with the reference's.",
     assumptions=["merge functions are commutative and associative (the order of merging is the library's)", "a combination is allowed if both operators allow it", "operators are registered before they are used concurrently", PUB] )

prop("C16", "Entity collection lists exactly the matching entities",
     "Collecting from a trust anchor returns exactly the entities reachable from it through subordinate listings that match the request's filters (entity types, name query, trust mark types), each once, with the entity types and the requested claims as stated in their own configurations; unreachable or invalid entities are left out and never hide others.",
     ["inputs", "configurations", "fault_sequences"],
     "every listing graph over the bounded set of entities, with every filter and every placement of up to k faults",
     "tests collect one fixed tree",
     ["discovery.go", "apimodel/collection.go"],
     [("SimpleEntityCollector.CollectEntities", "discovery.go")],
     modes=["sched", "race"], budget={"quick": 400, "thorough": 800},
     rule="every listing graph of three authorities over five entities; every choice of matching entities in 4 (5) trees of five x filters; every request of 7 entity type filters x 9 name queries x 5 trust mark filters x 15 claim selections over a federation of 10 entities of different kinds, for each collector; every subset of the library's 7 filters; up to k deviations among 14 behaviours of each listing endpoint and 10 of each configuration, with repetition of the collection after everything works again; sizes around the worker limit; every interleaving (delay bounded, at statements that touch shared variables, locks and requests) inside one and between two collections; a state is a distinct (situation, request, entities returned) or (graph, schedule length)",
     bounds={"quick": "T, I, J list 4, 4, 4 of the entities; k = 2; delay bound 1", "thorough": "5, 5, 5; k = 3; delay bound 2"},
     note="Exhaustive within the bounds against a reference collector that works on the raw documents; data races are looked for with the race detector in 8 configurations of four free-running collections. That an entity's own configuration is signed with its own keys is not judged here.",
     assumptions=[ED, VT, "an unlistable authority may be seen as having had the listing it last answered for up to an hour"])

prop("C17", "Concurrent use is safe and deterministic",
     "Concurrent resolutions, collections, verifications, publications, issuances and logins that share anchors, statements, chains, entities, collectors and the cache, and the concurrency inside a single collection or trust mark refresh, give under every interleaving the answers they give when run alone, without data races, crashes, deadlocks or calls that never end.",
     ["schedules"],
     "every interleaving of every pair of operations at HTTP and cache operations, locks and instrumented statements, up to the stated delay bound",
     "tests run one schedule, mostly single-threaded",
     ["discovery.go", "trustresolver.go", "trustchain.go", "cache/cache.go", "trustmark.go", "trustmark_refresher.go", "federation.go", "authcode.go"],
     [("visitedEntities", "discovery.go"), ("sync.WaitGroup", "discovery.go"), ("getEntityStatementOrConfiguration", "trustresolver.go")],
     rule="all pairs of 20 operations x cold cache, warm cache, cached statements about to be refreshed x all schedules within the delay bound at requests, cache operations, locks and starts; the same at all statements of files with concurrency (shared state) for the stated operations and at all statements for operations without requests; collections and refreshes among themselves; all pairs run freely, twice each, under the race detector over two caches; a state is a schedule",
     bounds={"quick": "delay bound 1 (refreshes: 2), statements for 3 operations", "thorough": "delay bound 2, statements for all operations with delay bound 1, three operations at once"},
     note="Exhaustive within the bounds on the real code under a controlled scheduler; each answer is compared with what the operation answers alone. Data races are looked for with the race detector in free-running executions of all pairs.",
     assumptions=[VT, PUB, "statements between two scheduling points run without interruption", "values handed out by one call are not changed by the caller while another call uses them"],
     modes=["sched", "race"], budget={"quick": 600, "thorough": 840})

prop("C18", "Remote resolution falls back and reports faithfully",
     "A remote resolver or collector asks exactly what it was asked and returns exactly what the remote endpoint answered; an error response, an unreadable answer, and a resolve response that is expired or about another entity are errors and never an empty success. The smart variants give the answer of the first trust anchor that gives one and otherwise the local answer, and never report resolution impossible only because a remote one failed.",
     ["fault_sequences", "configurations"],
     "every combination of remote endpoint behaviour, endpoint publication and local availability, for one and two trust anchors in either order",
     "tests do not exercise remote resolution",
     ["metadata_resolver.go", "discovery.go", "internal/http/http.go"],
     [("SmartRemoteMetadataResolver", "metadata_resolver.go"), ("SmartRemoteEntityCollector", "discovery.go")],
     rule="four lists of trust anchors x 61 behaviours of the resolve endpoint (53 of the collection endpoint) of each x 4 further ways to publish it x local resolution over both, either, none x entity types; all histories of a changing endpoint; a state is a distinct configuration with its outcome",
     bounds={"quick": "24 behaviours for the second trust anchor, histories of 3 calls", "thorough": "all behaviours for both, histories of 5 calls"},
     note="Exhaustive within the bounds; every answer compared member by member with what the endpoint sent or what local resolution gives, every request with what was asked.",
     assumptions=["the resolve endpoint is trusted: the signature of its answer has no expected key", "an answer invalid_metadata may count as possible or not", "a future iat and unset request parameters sent empty are don't-cares"])

prop("C19", "Documents survive encoding and decoding unchanged",
     "Decoding any document of the protocol and encoding it again yields the same JSON members with the same values, custom members included (where the type has room for them), and adds none. A known member that is null or an empty string, list or object may be left out or written out empty, an explicit false or 0 in metadata is kept, and a name that differs from a known one in letter case only is a custom member. The same holds through the YAML form for configuration types. Encoding what the library built and decoding it gives the same value back.",
     ["inputs"],
     "every single and pairwise presence, absence and value variation of every member of every document type",
     "tests round-trip a few fixed examples",
     ["metadata.go", "metadata_generated.go", "entitystatement.go", "metadataPolicy.go", "sliceorsinglevalue.go", "jwks/jwks.go", "unixtime/unixtime.go"],
     [("MarshalJSON / UnmarshalJSON", "metadata_generated.go"), ("unmarshalWithExtra / extraMarshalHelper", "entitystatement.go"), ("ResolveResponse.UnmarshalJSON", "trustresolver.go")],
     rule="23 document types, the metadata types read off the library: every document in which up to k members differ from the usual one, each with its values (absent, null, empty, false, 0, others; custom members of every JSON type; names in other letter case), decoded, encoded and compared, built anew from its exported fields, and through YAML where it has that form; a state is a distinct document",
     bounds={"quick": "k = 2 (metadata, entity statements), 3 (smaller types)", "thorough": "k = 3, 5 for the smaller types"},
     note="Exhaustive within the bounds; the document that went in is the oracle for what comes out.",
     assumptions=["numbers beyond the range of a JSON double and duplicate members are don't-cares", "constraints, naming constraints and trust mark owners have no room for custom members"])

prop("C20", "Cached statements mean the same as fresh ones",
     "A statement, trust tree or metadata read back from the cache is equivalent to the one stored: same members, same absent members, same verification result, and the same resolved metadata under any policy.",
     ["inputs", "histories"],
     "every single and pairwise presence variation of every metadata parameter, with policies on it, resolved fresh and from the cache",
     "tests compare no cached answers with fresh ones",
     ["metadata_generated.go", "metadata.go", "trustresolver.go", "internal/jwx/jws.go", "jwks/jwks.go", "cache/cache.go"],
     [("MarshalMsgpack / UnmarshalMsgpack", "metadata.go"), ("EntityStatement.MarshalMsgpack", "entitystatement.go"), ("trustTree", "trustresolver.go")],
     rule="every parameter of every metadata type (read off the types) x absent, null, zero and other values x policies that tell these apart; custom parameters and entity types with values of every JSON type; statements with up to k of 17 claims deviating; federations with up to k deviating claims resolved again with six different parts of the cache kept; a state is a distinct (document, policy, cache content)",
     bounds={"quick": "up to 2 deviating claims", "thorough": "up to 3 deviating claims"},
     note="Exhaustive within the bounds; the fresh statement is the oracle for the cached one.",
     assumptions=[ED, PUB, VT])

prop("C21", "Chain filters and orderings are exact",
     "Filtering returns exactly the chains that satisfy the filter, in order and without touching the others; sorting returns the same chains ordered by the score, ascending or descending, for any number of chains. Path-length, anchor and best-scoring filters agree with the definition applied chain by chain.",
     ["inputs"],
     "every list of chains of the stated length over the alphabet of lengths and anchors, and every combination of filters and scorings",
     "tests filter one fixed list",
     ["trustchainfilter.go", "trustchain.go"],
     [("TrustChains.SortAsc / SortDesc / Filter", "trustchain.go"), ("TrustChainsFilterMinPathLength and others", "trustchainfilter.go")],
     rule="every list of chains over 7 length/anchor shapes under every single and pair of 10 filters, and every assignment of 4 scores to a list of chains under ascending and descending order by score and by path length",
     bounds={"quick": "up to 5 chains filtered, up to 8 and 13, 30, 64 sorted", "thorough": "up to 6 chains filtered, up to 9 and 13, 30, 64 sorted"},
     note="Exhaustive within the bounds against the definition.")

prop("C22", "A relying party's login artefacts are bound to OP and request",
     "Authorization URLs, request objects, client assertions and token requests made for an OP go to the endpoints in its resolved metadata (whose issuer is the OP) and carry exactly the parameters the caller gave plus the required ones, with the RP as issuer, the OP as audience, fresh unique identifiers and a validity starting now, signed with the RP's key; the caller's own values are left untouched. When the OP cannot be resolved, or answers the token request with anything but a token response, the caller gets an error.",
     ["inputs", "configurations", "histories"],
     "every combination of parameters, OP metadata, resolution faults and token endpoint behaviour within the bounds; every sequence of logins at two OPs sharing the caller's values",
     "tests cover one path per artefact",
     ["authcode.go", "jwtsigning.go", "federation.go"],
     [("RequestObjectProducer", "authcode.go"), ("FederationLeaf.CodeExchange", "authcode.go")],
     rule="request objects and client assertions for 10 algorithms x every set of up to k deviations among 13 members and settings, each made three times; logins with every set of up to k deviations among endpoints, issuer, policy, faults of resolution, keys, cache outage, redirect URI, state, scope, code, 8 sets of parameters and 27 answers of the token endpoint, each done twice; all sequences of n logins, request objects, moves of an OP and pauses; a state is a distinct configuration or sequence",
     bounds={"quick": "k = 2, n = 4", "thorough": "k = 3, n = 6"},
     note="Exhaustive within the bounds; URL, form and JWTs are read with the standard library and compared with what they must be.",
     assumptions=["the client assertion's audience may be the OP or its token endpoint", "a parameter with an empty list of values may be left out", "an answer with status 200 but no access token is a don't-care", "statements seen before an OP moves may be used until they expire"])

prop("C23", "A published entity configuration is complete and resolvable",
     "An entity configuration published by the library states exactly the identifier, keys, metadata, hints, usable trust marks, trust mark issuers and owners and additional claims the entity is configured with at that moment, signed with its key, valid from then for the configured lifetime, and is accepted by resolution for a leaf, an intermediate or a trust anchor whose superiors list the same keys; the same goes for the subordinate statements it signs. Publishing changes neither the configuration nor earlier publications.",
     ["configurations", "histories"],
     "every combination of the configurable parts up to the stated number of deviations in every role, and every history of reconfigurations, waits and publications up to the stated length",
     "tests publish one configuration",
     ["federation.go", "entitystatement.go", "jwtsigning.go"],
     [("FederationEntity.EntityConfigurationJWT", "federation.go"), ("FederationEntity.SignEntityStatement", "federation.go")],
     rule="all sets of at most k deviations from a default configuration among 14 configurable parts (keys of 5 kinds and 10 algorithms included) in 4 roles, read back at once, just before and just after expiry; all sets of at most k deviations of a federation of four entities whose statements are all made by the library; all histories of 14 operations of the stated length; a state is a publication",
     bounds={"quick": "k = 2, histories of 4 operations and a publication", "thorough": "k = 3, histories of 5"},
     note="Exhaustive within the bounds: each publication is verified with the harness's own JOSE code and compared member by member, then resolved by the library below harness-made superiors.",
     assumptions=[ED, VT, "additional claims do not collide with registered ones", "read at least a microsecond after publication"])

prop("C24", "The cache returns what was stored, until it expires",
     "A cache read returns exactly the value last stored under that key while its lifetime lasts and nothing afterwards, what is stored or read can be changed without changing what the cache holds, keys of different kinds never collide, and a lifetime of zero or less never makes an entry permanent. This holds for the in-memory and the Redis cache alike; a Redis server that does not answer is reported as an error. (The in-memory cache may drop entries once it holds 100,000.)",
     ["histories", "inputs", "fault_sequences"],
     "every history of stores, reads, time steps and outages over a set of keys and lifetimes, and every value over a set of shapes",
     "tests do not test the cache",
     ["cache/cache.go", "cache/redis.go"],
     [("cacheWrapper.Set / Get", "cache/cache.go"), ("redisCache.Set / Get", "cache/redis.go"), ("Key / EntityStmtCacheKey", "cache/cache.go")],
     rule="all histories of the stated length over 2 keys x 9 lifetimes of stores, 3 waits, reads and server outages; all values over 4 strings x 3 lists x 3 maps x 3 times, plain and nested; 1 to 5,000 entries of up to a megabyte, 64 MB in all, held together; all pairs of keys over 18 identifiers and 7 kinds; a state is the content and remaining lifetimes of the cache",
     bounds={"quick": "length 4, 5,000 entries", "thorough": "length 5 in memory, 4 with Redis, 60,000 entries"},
     note="Exhaustive within the bounds against a reference map. Redis is a model server with its own clock, reached through the real client.",
     assumptions=[VT, "Redis lifetimes below a millisecond, and the very moment of expiry, are don't-cares", "the model server understands GET, SET with EX/PX/NX/XX/KEEPTTL, SETEX, PSETEX, EXPIRE, DEL, EXISTS and TTL"])

prop("C25", "Times and durations convert exactly",
     "A timestamp or duration in seconds, fractional ones included, converts to and from JSON, and a duration to and from configuration files, without changing its value by more than a microsecond (or the precision of a JSON number with a fraction), for any date until the year 9999 and any duration of up to 200 years. A time that was never set is written as 0 and counts as no limit; otherwise something is valid exactly from its issue until its expiry.",
     ["inputs"],
     "every value of the boundary grid, in every written form, alone and as a member",
     "tests do not test the conversions",
     ["unixtime/unixtime.go"],
     [("Unixtime.UnmarshalJSON / MarshalJSON", "unixtime/unixtime.go"), ("DurationInSeconds", "unixtime/unixtime.go"), ("VerifyTime", "unixtime/unixtime.go")],
     rule="42 dates and 25 durations (boundaries of 32-bit and 64-bit representations included) x 19 fractions x 3 written forms x sign, every duration that is a multiple of a millisecond up to the bound, and all combinations of 10 issue and expiry times",
     bounds={"quick": "multiples of a millisecond up to 64 s", "thorough": "multiples of a millisecond up to 640 s"},
     note="Exhaustive over the grid against exact rational arithmetic.",
     assumptions=["what is read from null, and the very moment of expiry, are don't-cares"])

prop("C26", "What a document states is what its accessors report",
     "For every entity metadata document, whether read, taken from the cache or built by a program, the entity types it has, their display names, the values of a given claim for each type, and the metadata of a given type decoded into the caller's own object are exactly what the document states; looking for a trust mark finds the first one that matches. Looking something up changes nothing, and what is absent is reported as absent.",
     ["inputs"],
     "every document over every parameter of every entity type and a set of values and combinations of types, and every lookup in it",
     "tests sample one parameter or type of each accessor",
     ["metadata.go", "trustmark.go"],
     [("Metadata.GuessEntityTypes / GuessDisplayNames", "metadata.go"), ("Metadata.IterateStringClaim / IterateStringSliceClaim", "metadata.go"), ("Metadata.FindEntityMetadata", "metadata.go"), ("TrustMarkInfos.Find / FindByID", "trustmark.go")],
     rule="every parameter of every entity type x each of its values x 4 second entity types x 3 places; every combination of 4 contents for each of the 6 entity types; every combination of custom members and types up to the bound; every list of trust marks over 4 types; each read, cached and built",
     bounds={"quick": "2 custom members; 4 trust marks", "thorough": "3 custom members; 5 trust marks"},
     note="Exhaustive over the grid; the oracle reads the JSON document itself.",
     assumptions=["the display name of a custom entity type is a don't-care", "JSON null counts as absent"],
     modes=["plain"])

prop("C27", "Every request asks the right party for exactly what is needed",
     "Whatever identifiers, endpoints, types and other parameters are made of, each operation sends exactly the requests it needs: a GET to the well-known location of the entity or to the published endpoint with the query that this has of its own, and with the parameters of the request unchanged and encoded once, without cookies or credentials. What is fetched for one identifier or endpoint is never used for another, however similar.",
     ["inputs", "histories"],
     "every operation that makes requests, with every combination of up to k unusual identifiers, endpoints and parameter values, and every ordered pair of similar identifiers and of similar endpoints",
     "tests use plain host names, one endpoint form and no special characters",
     ["internal/http/http.go", "entitystatement.go", "trustresolver.go", "discovery.go", "metadata_resolver.go", "federation.go", "cache/cache.go"],
     [("Get", "internal/http/http.go"), ("GetEntityConfiguration / FetchEntityStatement", "entitystatement.go"), ("subordinateListingCacheGet", "discovery.go"), ("EntityStmtCacheKey", "cache/cache.go")],
     rule="configurations, subordinate statements, chains, trust marks, listings, remote resolution and remote collection x 30 forms of identifiers (ports, empty segments, reserved and escaped characters, non-ASCII letters), 20 forms of endpoints (own queries, escapes, trailing slashes, no path) and 15 texts as parameter values, up to k unusual ones at once; every ordered pair of similar identifiers (differing in case, slash, port, scheme, escape) for statements about them, by them, configurations and resolution, of similar endpoints for listings, and of statements whose two identifiers written after each other read the same, asked for in turn twice; a state is a distinct operation with its parameters",
     bounds={"quick": "k = 3; pairs of 53 identifiers and 26 endpoints", "thorough": "k = 4; pairs of 71 identifiers"},
     note="Exhaustive within the bounds: the requests that leave the HTTP client are compared, URL by URL and parameter by parameter, with what was asked; anything else that is requested is an alarm.",
     assumptions=["empty parameters say as much as absent ones", "the order of parameters is the library's", "identifiers that differ only in a final slash have the same well-known location", PUB])

SPECS = {p["id"]: p for p in P}
