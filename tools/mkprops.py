#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays readable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Trust chains are linked and end at a configured trust anchor",
 "Every trust chain returned by trust-chain resolution starts with the starting entity's own entity configuration (issuer and subject are the starting entity), every statement's issuer is the subject of the next statement, and the chain ends with the self-issued entity configuration of one of the configured trust anchors. An entity that is itself a trust anchor yields exactly the chain made of its own configuration, and an entity without a path to a trust anchor yields no chain.",
 ["inputs","configurations"],"all federations (any graph of entities, hints, missing or lying endpoints), all starting entities and trust anchor sets",
 "Tests resolve a handful of well-formed mock federations; linkage has to hold for every graph of authority hints and every response the fetched endpoints may give.",
 ["trustresolver.go","trustchain.go","trustanchor.go"],
 [("tree building","trustresolver.go trustTree.resolve, TrustResolver.Resolve"),("chain extraction","trustresolver.go trustTree.chains")],
 [("trust tree","entity configurations and the subordinate statements connecting them")],["TrustResolver.ResolveToValidChainsWithoutVerifyingMetadata","TrustResolver.Chains"])
p("P02","Every statement of a returned chain is authenticated up to the trust anchor",
 "In every returned trust chain each statement's signature was verified: the trust anchor's statements with the keys pinned for that trust anchor (or, only if none are pinned, with the trust anchor's own published keys), and every other entity's statements with the keys that the next superior attests for that entity in its verified subordinate statement. A branch in which any of these signatures does not verify contributes no chain.",
 ["inputs","configurations"],"all federations with any subset of statements signed by wrong keys, all pinned or unpinned trust anchor key sets",
 "A test can tamper with one statement at a time; the property quantifies over every place, every combination and every depth where a forged statement or key substitution may occur.",
 ["trustresolver.go","entitystatement.go","internal/jwx/jws.go"],
 [("signature verification of the tree","trustresolver.go trustTree.verifySignatures"),("JWS verification","internal/jwx/jws.go ParsedJWT.VerifyWithSet, entitystatement.go EntityStatement.Verify")],
 None,["TrustResolver.Chains"])
p("P03","Only statements that are valid in time are trusted",
 "Every statement used in a resolved trust chain was, when the chain was built, already valid (issued-at not in the future) and not expired; a missing issued-at or expiration does not invalidate a statement. Trust marks and delegations are accepted only under the same condition.",
 ["inputs","histories"],"all issued-at/expiration values including absent ones, relative to any current time",
 "Tests sample a few offsets around now; the boundary conditions and each of the places where validity has to be checked are not covered.",
 ["unixtime/unixtime.go","trustresolver.go","entitystatement.go","trustmark.go"],
 [("time check","unixtime/unixtime.go VerifyTime, entitystatement.go TimeValid"),("use","trustresolver.go resolve/Resolve, trustmark.go VerifyExternal")])
p("P04","Constraints of superiors are enforced on everything below them",
 "A subordinate statement is used in a chain only if its constraints hold for the whole path below its issuer: the number of intermediates does not exceed the maximum path length, every entity identifier below satisfies the naming constraints (no host matches an excluded entry, and if permitted entries are given each host matches one; an entry with a leading dot matches proper sub-domains, any other entry only the identical host, ignoring case), and every entity type below is allowed (federation_entity always is). Statements without constraints, and constraints that are satisfied, never exclude a path.",
 ["inputs","configurations"],"all constraint specifications, paths of any length, entity identifiers and metadata",
 "Existing tests use a few fixed constraint fixtures; interactions of depth, naming and entity types along longer paths are not enumerable by samples.",
 ["trustresolver.go","entitystatement.go","metadata.go"],
 [("constraint evaluation","trustresolver.go trustTree.checkConstraints, matchNamingConstraint"),("bookkeeping of the path below","trustresolver.go trustTree.resolve")])
p("P05","Trust chain resolution always terminates and never repeats an entity",
 "No entity occurs twice on a path that is explored or returned, so that resolution terminates for every federation graph, including cyclic and self-referencing authority hints, and any chain of more than one statement contains at most one statement per issuer except for the trust anchor's own configuration.",
 ["inputs","configurations"],"all directed graphs of authority hints, including cycles and self loops",
 "Tests contain one or two loops; termination is a property of all graphs.",
 ["trustresolver.go"],[("loop prevention","trustresolver.go trustTree.resolve (subordinateIDs)")])
p("P06","Every valid trust chain is found",
 "If a path from the starting entity to a configured trust anchor exists in which every statement is available, correctly linked, valid in time, correctly signed and within all constraints, then the corresponding chain is returned. Failures in other branches (unreachable, lying, expired or wrongly signed authorities) never suppress it, and trust anchors terminate paths.",
 ["inputs","configurations","fault_sequences"],"all federations and all sets of failing or misbehaving authorities beside a valid path",
 "Tests check expected chains for fixed federations without faults in sibling branches in every position.",
 ["trustresolver.go"],[("tree building","trustresolver.go trustTree.resolve"),("pruning","trustresolver.go trustTree.verifySignatures"),("extraction","trustresolver.go trustTree.chains")])
p("P07","Resolved metadata is the leaf's metadata with the merged policies applied",
 "The metadata of a trust chain is the metadata published in the first statement with the combination of the metadata policies of all statements of the chain applied to it, per entity type and metadata parameter; parameters without policy stay as published. If policies cannot be combined, a critical operator is not understood or a policy is not satisfied, the chain yields an error and no metadata, and resolving to valid chains keeps exactly the chains without such an error; the local resolver answers with the metadata and messages of a shortest chain among them.",
 ["inputs","configurations"],"all chains, metadata documents and metadata policies",
 "Tests cover a fixed list of metadata/policy pairs from the specification; combinations of entity types, parameters and policies are unbounded.",
 ["trustchain.go","metadata.go","metadataPolicy.go","metadata_resolver.go","trustchainfilter.go"],
 [("chain metadata","trustchain.go TrustChain.Metadata"),("application","metadata.go Metadata.ApplyPolicy, applyPolicy"),("selection","metadata_resolver.go LocalMetadataResolver"),("valid chains","trustchainfilter.go TrustChainsFilterValidMetadata")])
p("P08","Policy operators transform metadata values as specified",
 "value replaces the parameter, add unites it with the operator values, default is used only if the parameter is absent, one_of requires the present value to be listed, subset_of reduces the present value to the listed ones, superset_of requires all listed values to be present, and essential requires presence; they take effect in the order value, add, default, one_of, subset_of, superset_of, essential. Checks on an absent and non-essential parameter pass and leave it absent, and an essential parameter that is absent leads to an error.",
 ["inputs"],"all operator sets of a policy entry, operator values and metadata values (scalars, lists, absent)",
 "The specification's examples used as tests cover single combinations; the interaction of seven operators with arbitrary values is not covered.",
 ["policyoperators.go","metadataPolicy.go","internal/utils/slices.go"],
 [("operators","policyoperators.go policyOperator*"),("order of application","metadataPolicy.go MetadataPolicyEntry.ApplyTo"),("set operations","internal/utils/slices.go")])
p("P09","Merging metadata policies neither loses nor weakens a superior's policy",
 "Merging combines, per parameter and operator, the operator values of all statements of the chain: value and default must be equal, add unites, one_of and subset_of intersect, superset_of unites, and essential is a logical or; operators and parameters occurring only on one side are kept unchanged. Conflicting value or default operators and an empty one_of result in an error, so that a subordinate can never relax what a superior requires.",
 ["inputs"],"all pairs and sequences of policies, known and unknown operators, all entity types",
 "Tests merge a few fixed pairs; no test quantifies over the operators present on only one of the sides or over sequences of three and more policies.",
 ["metadataPolicy.go","policyoperators.go","internal/utils/slices.go"],
 [("entry merge","metadataPolicy.go mergeMetadataPolicyEntries"),("policy merge","metadataPolicy.go combineMetadataPolicy, CombineMetadataPolicy, MergeMetadataPolicies"),("operator merge","policyoperators.go mergers")])
p("P10","Illegal operator combinations and unknown critical operators are rejected",
 "A policy entry that contains known operators which may not be combined, or whose operator values contradict each other (for example a value outside of one_of or subset_of, added values outside of subset_of, superset_of not within subset_of, or a null value with default), is rejected both before and after merging, while legal combinations are accepted. Unknown operators are ignored unless some statement of the chain lists them as critical, in which case the chain yields no metadata.",
 ["inputs"],"all sets of operators and operator values, all lists of critical operators at any position in the chain",
 "Tests cover chosen pairs out of the operator combinations and no critical operator list.",
 ["metadataPolicy.go","policyverifiers.go","policyoperators.go","trustchain.go"],
 [("combination check","metadataPolicy.go MetadataPolicyEntry.Verify"),("value checks","policyverifiers.go"),("critical operators","trustchain.go TrustChain.Metadata")])
p("P11","Evaluating metadata and policies does not modify its inputs",
 "Merging policies, applying policies and computing the metadata of a chain never modify the statements, metadata or policies they work on, so that repeating the evaluation, or evaluating another chain that shares statements, gives the same result. Filtering chains or trust marks does not modify the filtered collection.",
 ["inputs","histories"],"all chains sharing statements and all sequences of evaluations",
 "Tests compare one result per evaluation; aliasing defects only show on a later evaluation of shared data.",
 ["trustchain.go","metadata.go","metadataPolicy.go","internal/utils/slices.go","trustchainfilter.go"],
 [("set operations","internal/utils/slices.go ReflectUnion, ReflectIntersect"),("policy merge","metadataPolicy.go"),("application","metadata.go ApplyPolicy")])
p("P12","Trust marks are accepted only if issued and signed by an allowed issuer",
 "Verification of a trust mark in a federation succeeds only if the trust anchor, when it restricts issuers for that trust mark type, lists the mark's issuer; the type announced beside the mark equals the type inside it; the mark is valid in time; and its signature verifies with the keys of an issuer that is the trust anchor or that resolves to a trust chain to it. Marks that satisfy all conditions are accepted, and only marks whose subject is the presenting entity are reported for it.",
 ["inputs","configurations"],"all trust marks, trust anchor configurations and issuer key sets",
 "Tests verify a small catalogue of marks; each condition has to hold in combination with every state of the others.",
 ["trustmark.go","metadata_resolver.go"],
 [("federation verification","trustmark.go TrustMark.VerifyFederation, TrustMarkInfo.VerifyFederation"),("issuer keys","trustmark.go getTrustMarkIssuerJWKS"),("selection","trustmark.go VerifiedFederation, VerifiedExternal, forSubject")])
p("P13","Delegated trust marks require a valid delegation by the owner",
 "If an owner is defined for a trust mark type, a mark of this type is accepted only with a delegation that is signed with the owner's keys, issued by the owner, for the mark's issuer and the mark's type, and valid in time; otherwise no delegation is needed. Standalone verification of a delegation applies the keys the trust anchor publishes for the owner of the delegation's type.",
 ["inputs","configurations"],"all marks, delegations and owner specifications, each claim independently right or wrong",
 "Tests cover one good delegation and few bad ones.",
 ["trustmark.go"],[("delegation check","trustmark.go TrustMark.VerifyExternal"),("delegation verification","trustmark.go DelegationJWT.VerifyExternal, VerifyFederation")])
p("P14","Signed objects are accepted only under their declared JWT type",
 "Entity statements, trust marks, delegations and resolve responses are accepted only if the JWT carries exactly one signature whose protected header declares the type of that object, so that an object of one type can never be used as another. The parsed object's claims are those of the parsed JWT's payload, and everything the library signs declares the corresponding type.",
 ["inputs"],"all JWTs with any type header, any number of signatures and any payload",
 "Tests parse correct objects; confusion between all pairs of types and multi-signature messages are not tested.",
 ["internal/jwx/jws.go","entitystatement.go","trustmark.go","metadata_resolver.go","jwtsigning.go","oidfedconst/constants.go"],
 [("type check","internal/jwx/jws.go VerifyType"),("parsers","ParseEntityStatement, ParseTrustMark, parseDelegationJWT, ParseResolveResponse"),("signers","jwtsigning.go JWT methods")])
p("P15","Issued trust marks and delegations carry exactly the configured claims",
 "An issuer issues a trust mark only for types it is configured for, with itself as issuer, the requested subject and type, issued now, expiring after the passed or else the configured lifetime (no expiration if that is zero) and the configured reference, logo, delegation and extra claims. The same holds for delegations issued by a trust mark owner; marks issued this way verify under the issuer's published keys until they expire.",
 ["inputs","configurations"],"all specifications, subjects, types and lifetimes",
 "Tests issue one or two marks and do not vary lifetimes and optional claims together.",
 ["trustmark.go"],[("issuance","trustmark.go TrustMarkIssuer.IssueTrustMark, TrustMarkOwner.DelegationJWT")])
p("P16","Published entity configurations reflect the configured entity",
 "An entity's configuration names the entity as issuer and subject, expires after the configured lifetime from issuance (a non-positive lifetime means the default of one day), carries the configured metadata, authority hints, trust mark issuers, owners and extra claims, the trust marks that are currently obtainable, and the keys under which its own signature verifies. A trust mark that cannot be obtained is left out without affecting the rest.",
 ["inputs","configurations"],"all entity settings",
 "Tests build few fixed entities.",
 ["federation.go","jwtsigning.go"],[("payload","federation.go EntityConfigurationPayload"),("construction","federation.go NewFederationEntity, NewFederationLeaf"),("signing","federation.go EntityConfigurationJWT, SignEntityStatement")])
p("P17","Authorization requests are bound to the client and the provider",
 "A request object names the client as issuer and client id, the provider as audience, expires after the configured lifetime, contains the caller's parameters (except subject and client secret) and is signed with the client's key; a request without audience is refused. A client assertion names the client as issuer and subject and the addressed endpoint as audience, and the authorization URL carries the provider's own query parameters plus client id, redirect URI, scope, response type and the request object, without modifying the caller's data.",
 ["inputs","configurations"],"all request parameters, provider endpoints and lifetimes",
 "Tests produce a few request objects and check selected claims.",
 ["authcode.go"],[("request objects","authcode.go RequestObjectProducer"),("authorization URL","authcode.go GetAuthorizationURL"),("code exchange","authcode.go CodeExchange")])
p("P18","Chain filters and rankings return exactly the matching chains in order",
 "Filtering trust chains returns, in the original order, exactly the chains that satisfy all given criteria (ending at the given trust anchor, minimal or bounded number of intermediates, custom checks), and sorting returns a permutation of the input ordered by score. The path length of a chain is its number of intermediates and its expiration is the earliest expiration of its statements.",
 ["inputs"],"all lists of chains, criteria and scoring functions",
 "Tests use fixed lists of few chains.",
 ["trustchainfilter.go","trustchain.go"],[("filters","trustchainfilter.go"),("length and expiration","trustchain.go PathLen, ExpiresAt")])
p("P19","Caching never changes results and never outlives the cached statements",
 "Everything read from a cache was stored for the same question: the same issuer and subject of a statement, the same starting entity, trust anchors (with their keys) and entity types of a resolution, or the same chain. Entries live no longer than the earliest expiration of the statements they were computed from, and different questions never share an entry.",
 ["inputs","histories","configurations"],"all sequences of resolutions with different anchors, keys and types, all expirations",
 "Tests resolve from an empty cache or repeat the same question; confusing or over-long entries need particular sequences of different questions.",
 ["trustresolver.go","trustchain.go","cache/cache.go","cache/redis.go","federation.go"],
 [("keys","cache/cache.go Key, EntityStmtCacheKey, trustresolver.go hash, trustchain.go hash"),("lifetimes","trustresolver.go cacheSet*, limitExpiration, cache/redis.go Set")])
p("P20","Serialization keeps every claim, known or not",
 "Decoding and re-encoding (JSON, the cache's binary format, and YAML where supported) of entity statements, metadata, policies, trust marks, delegations and resolve responses keeps every known claim and every additional claim with its value; a known claim never shows up as an additional one and additional claims never replace others. A claim that accepts a single value or a list keeps its values in order.",
 ["inputs"],"all JSON documents with any subset of known and additional claims",
 "Tests round-trip fixtures with few claims.",
 ["entitystatement.go","metadata.go","metadataPolicy.go","trustmark.go","trustresolver.go","sliceorsinglevalue.go","jwks/jwks.go"],
 [("extra claims","entitystatement.go extraMarshalHelper, unmarshalWithExtra"),("tag names","internal/utils/utils.go FieldTagNames"),("single values","sliceorsinglevalue.go")])
p("P21","Resolvers report positive answers only for confirmed resolutions",
 "A resolver returns metadata only if resolution succeeded, and reports a subject as valid or invalid only if that was confirmed: a remote resolver's transport, parsing or unspecific errors confirm nothing, invalid-trust-chain confirms invalidity, and a metadata error confirms the trust chain. The smart resolver uses the first trust anchor whose resolve endpoint gives an answer and falls back to resolving locally if none does; a local resolver reports exactly one of valid and invalid.",
 ["inputs","fault_sequences"],"all sequences of remote answers and failures over the trust anchors",
 "Tests exercise individual error responses, not all sequences of failing and succeeding endpoints.",
 ["metadata_resolver.go"],[("remote","metadata_resolver.go SimpleRemoteMetadataResolver"),("fallback","metadata_resolver.go SmartRemoteMetadataResolver"),("local","metadata_resolver.go LocalMetadataResolver")])
p("P22","Trust marks of an entity are kept current and correct",
 "A configured trust mark is published unchanged if refreshing is disabled or it does not expire, and otherwise only while its remaining lifetime exceeds the configured minimum; else a fresh mark is obtained first, and a failure to do so is reported. A refreshed mark is used only if it is a trust mark of the configured type for this entity, its expiration replaces the old one, and attempts are made at most once a minute.",
 ["inputs","histories"],"all configurations, expirations and answers of trust mark endpoints over time",
 "Tests cover single refreshes with friendly issuers.",
 ["trustmark_refresher.go"],[("lookup","trustmark_refresher.go TrustMarkJWT"),("refresh","trustmark_refresher.go refresh"),("configuration","trustmark_refresher.go Verify")])
p("P23","Entity collection returns exactly the entities matching the request",
 "Collecting entities returns, each exactly once, the entities below the trust anchor that match the requested entity types, carry every requested trust mark (verified for that entity) and whose display name matches the query, with only the requested claims; collecting with verified chains additionally keeps exactly those with a valid trust chain. Unreachable or misbehaving subordinates do not suppress others, and cyclic subordinations terminate.",
 ["inputs","configurations","fault_sequences"],"all federations, collection requests and sets of failing entities",
 "Tests collect from a few fixed federations without faults and with few filters.",
 ["discovery.go"],[("collection","discovery.go SimpleEntityCollector.collect"),("filters","discovery.go EntityCollectionFilter*"),("names","discovery.go matchWithMode")])
p("P24","Hostile remote content never crashes the library",
 "Whatever statements, metadata, metadata policies, trust marks, keys, lists or error responses remote parties return, processing them ends with a result or an error, never with a crash. This includes absent optional objects, values of unexpected types and empty collections.",
 ["inputs","fault_sequences"],"all remote responses reachable through the library's entry points",
 "A crash needs one particular combination of absent or ill-typed data; tests feed well-formed data.",
 ["trustresolver.go","trustmark.go","metadata.go","metadataPolicy.go","policyoperators.go","policyverifiers.go","internal/utils/slices.go","internal/jwx/jws.go","discovery.go"],
 [("nil and type handling","all functions processing remote data")])
p("P25","Time stamps and durations convert without loss",
 "Time stamps are read as seconds since the epoch with fractions and written back to the same number, the zero time is written as zero, and durations are read and written as seconds with fractions. Comparisons and remaining lifetimes derived from them refer to the represented instant for every representable value.",
 ["inputs"],"all numbers accepted as time stamps and durations",
 "Tests use a few present-day values.",
 ["unixtime/unixtime.go"],[("conversion","unixtime/unixtime.go")])
p("P26","Restricting resolution to entity types keeps exactly these types",
 "If a resolution is restricted to entity types, the resolved metadata contains exactly those of the requested types that the entity publishes, unchanged, including types unknown to the library, and nothing of other types; without restriction all published types are kept. Constraints on entity types apply to what remains.",
 ["inputs","configurations"],"all metadata documents and all lists of requested types",
 "Tests restrict to one or two known types.",
 ["internal/utils/structs.go","trustresolver.go","metadata.go"],[("restriction","internal/utils/structs.go NilAllExceptByTag"),("use","trustresolver.go Resolve"),("types","metadata.go GuessEntityTypes")])
p("P27","Concurrent collection and resolution are free of data races and deadlocks",
 "Concurrent entity collections, resolutions and trust mark refreshes in one process return the same results as sequential ones, without data races and without blocking each other forever.",
 ["schedules"],"all interleavings of the collector's workers, the background refresh of cached statements and concurrent callers",
 "Tests run under one or few schedules.",
 ["discovery.go","trustresolver.go","trustmark_refresher.go","cache/cache.go"],[("workers","discovery.go SimpleEntityCollector.collect"),("background refresh","trustresolver.go getEntityStatementOrConfiguration")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
