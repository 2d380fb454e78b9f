"""per-property configuration: level, technique, notes, assumptions"""
TRUSTED = ['go/ssa (x/tools) lowering of /repo by govc', 'engine/ (VC generator: symbolic execution of SSA with loop cut points)', 'z3, cvc5', 'models of external functions in engine/models.py']
COMMON = ['Go int arithmetic is treated as mathematical integers; overflow is not modelled except where a contract says so',
          'single-threaded execution: data races and schedules are outside the proof',
          'external packages (jwx, encoding/json, msgpack, reflect, net/http, time, slog) behave as their models in engine/models.py state']
TECH = 'contract-based deductive verification of the real Go code (SSA verification conditions, z3/cvc5), with a bounded concrete replay harness'
P = {}


def prop(id, level='exploration', note='', rule='', assume=(), budget=200, harness=True, na=None, proved='', rest=''):
    # proved: what the discharged contracts say; rest: what only the bounded companion covers
    if not note: note = ('Proved for all inputs (contracts on the SSA of /repo): %s ' % proved if proved else '') + 'Bounded companion: %s. %s' % (rule, rest)
    P[id] = dict(level=level, note=note.strip(), rule=rule, assume=list(assume), budget=budget, harness=harness, na=na, proved=proved, rest=rest)


ASSUME_NET = 'entity configurations and statements are functions of the request (a server gives one answer per resolution)'
prop('P01', level='proof', proved="the tree built by resolve is exactly the tree of linked paths of the federation to the anchors (sound and complete), verifySignatures keeps sub-trees of it, chains returns exactly the paths of a tree: each starts with the entity's configuration, is linked and ends at an anchor.", rest='The public wrappers are proved as steps; that a cached tree is what an earlier resolution stored, and HTTP fetching, are bounded.', rule='random and systematic federations (up to 9 entities, several trust anchors, faults in single statements) resolved by the real code and compared with a reference resolver', assume=[ASSUME_NET])
prop('P02', level='proof', proved="EntityStatement.Verify and VerifyWithSet accept exactly if the (single) signature verifies under the given set; verifySignatures returns true exactly if the statements verify with the anchor's or superior's attested keys up to an anchor and keeps exactly the verified branches; chains returns only such branches.", rest='Histories over the cache and the step-wise API are bounded (families stepwise, reuse).', rule='federations in which single statements are forged, re-signed, key-swapped or tampered with, compared with a reference resolver', assume=[ASSUME_NET])
prop('P03', level='proof', proved='VerifyTime and TimeValid are exactly the stated condition; resolve uses only statements that satisfy it; trust marks and delegations likewise (P12, P13 contracts).', rest='Decoding of time claims is bounded.', rule='iat/exp combinations around now for every statement of a chain and for trust marks', assume=[ASSUME_NET])
prop('P04', level='proof', proved='matchNamingConstraint and checkConstraints are exactly the stated conditions over the path below; resolve drops exactly the statements that fail them.', rest='Entity type guessing by reflection is bounded.', rule='constraint combinations (path length, naming, entity types) at every level of generated federations', assume=[ASSUME_NET])
prop('P05', level='proof', proved='every recursive call of resolve passes a visited list that grows by an entity not in it and a request that differs (descent obligation), so paths never repeat an entity.', rest='Request counts are bounded.', rule='cyclic and dense federations; termination, request counts and repetition checked', assume=[ASSUME_NET])
prop('P06', level='proof', proved='completeness directions of resolve, verifySignatures and chains: every linked, valid, constrained, verified path of the federation is returned.', rest='HTTP and cache layers are bounded.', rule='generated federations compared with the exhaustive set of valid chains of a reference resolver', assume=[ASSUME_NET])
prop('P07', level='proof', proved='(TrustChain).Metadata: the metadata of the subject with the policies of every statement of the chain merged and applied; refused exactly when an unknown operator is critical anywhere in the chain, the policies cannot be merged or cannot be applied; nothing without statements; what is taken from the cache was stored for this chain. (TrustChain).Messages. MergeMetadataPolicies, applyPolicyToMap (metadata types held in maps).', rest='Metadata.ApplyPolicy walks the fields of the struct types by reflection and is taken by contract; its field walk is decided by the bounded checks of this property and of P08.', rule='chains with metadata and policies compared with an independent policy evaluator', assume=[ASSUME_NET])
prop('P08', level='proof', proved='every registered operator (value, default, add, one_of, subset_of, superset_of, essential): its application to an attribute, over the dynamic types used for attributes; MetadataPolicyEntry.ApplyTo as the fold of the operators in their fixed order; applyPolicyToMap; the helpers over slices and sets (union, intersection, subset, membership) through the reflection model.', rest='Values of struct fields other than strings, booleans and lists of strings (numbers, nested objects) are bounded.', rule='operators x values of all JSON kinds compared with reference operators')
prop('P09', level='proof', proved="every operator's Merge; mergeMetadataPolicyEntries; combineMetadataPolicy, CombineMetadataPolicy (fold, recursion) and MergeMetadataPolicies: for each entity type and claim the merge of the entries of all statements from the anchor down, nothing lost and nothing added, refused exactly if one merge is refused.", rest='Operands of operators that are no strings or lists of strings are bounded.', rule='merges of up to four policies compared with the conjunction of their constraints')
prop('P10', level='proof', proved='MetadataPolicyEntry.Verify accepts exactly if every operator may stand with every other and the registered verifiers accept; MetadataPolicy.Verify; the tables of operators, their combination sets and verifiers are exactly those of the specification and written nowhere else; merged policies are verified at every step; a critical operator that is not understood refuses the chain (TrustChain.Metadata).', rest='The tables are read off the initialisers of the package.', rule='operator pairs with values, checked against the combination rules')
prop('P11', level='proof', proved='every function on policies under contract has a frame condition: nothing reachable from its arguments is written (results are new objects).', rest='Metadata.ApplyPolicy over struct fields is decided by the bounded snapshots.', rule='deep snapshots of inputs before and after policy and metadata evaluation')
prop('P12', level='proof', proved='ParseTrustMark, TrustMarkInfo.TrustMark, TrustMark.VerifyExternal and TrustMarkInfo.VerifyExternal accept exactly under the stated conditions.', rest="Federation lookup of the issuer's keys is bounded where not listed.", rule='trust marks with single deviations and random worlds compared with a reference verifier')
prop('P13', level='proof', proved="delegation parsing and verification accept exactly if the delegation is signed by the owner's keys for this issuer and trust mark type and valid in time.", rest='', rule='delegated marks with single deviations and random worlds compared with a reference verifier')
prop('P14', level='proof', proved='Parse/VerifyType accept exactly one signature and the declared typ; every parser under contract demands its type and every signer produces it.', rest='', rule='JWTs of every type (header typ, algorithms, JSON serializations with several signatures) given to every parser')
prop('P15', level='proof', proved="IssueTrustMark and DelegationJWT produce exactly the configured claims, signed with the issuer's key and type; the constructors register exactly the given specifications.", rest='', rule='issuance specs x subjects x lifetimes; the issued JWTs are checked and verified independently')
prop('P16', level='proof', proved="NewFederationEntity keeps the configuration (lifetime default of one day, keys of the signer, initialised trust marks); EntityConfigurationPayload states issuer, subject, issue time, expiration, metadata, hints, issuers, owners, extra claims as configured and holds exactly the configured trust marks that are obtainable; EntityConfigurationJWT and SignEntityStatement sign exactly these claims with the entity's key under the entity statement type.", rest='NewFederationLeaf and the JSON encoding of the claims (custom marshallers) are covered by the harness only.', rule='federation entity configurations with all option combinations; the produced entity configuration is decoded and verified independently')
prop('P17', level='proof', proved="RequestObject, ClientAssertion (every claim of the signed object, and nothing else), NewRequestObjectProducer, GetAuthorizationURL (the provider's endpoint with its own query parameters, the parameters of the request, and a request object with the caller's parameters), ResolveOPMetadata is free of crashes; no caller data is written (frame).", rest='CodeExchange (HTTP exchange) is covered by the harness only.', rule='authorization requests and request objects over random parameters; decoded and verified independently')
prop('P18', level='proof', proved='Filter of every filter type, TrustChains.Filter, the checkers, PathLen, ExpiresAt, SortAsc and SortDesc: exactly the matching chains in the original order; a permutation ordered by score.', rest='The scoring and checking functions given by the caller are taken to be pure.', rule='random chain sets x filters/sorters compared with reference implementations')
prop('P19', level='proof', proved='the keys of cache entries are exactly the type of the entry and all parts of the question (the hash of a question determines the question); a tree, chain list, entity statement, configuration or key set is stored only under the key of its own question and read only from there; entries that cannot be decoded are not used; lifetimes handed to the back ends do not exceed those of the stored statement or chains; the in-memory and redis back ends pass key, value and lifetime on unchanged.', rest='The back ends themselves (go-cache, redis) and histories over time are modelled; histories are covered by the harness.', rule='histories of cache accesses with expiries, key collisions, shared caches between resolvers, and a fake redis server')
prop('P26', rule='type restrictions over metadata with known and unknown types')
prop('P20', rule='random documents of every serializable type, decoded and re-encoded in every supported format and compared')
prop('P21', level='proof', proved='ParseResolveResponse, SimpleRemoteMetadataResolver (Resolve, ResolveResponse, ResolveResponsePayload, ResolvePossible) and the remote step of the smart resolver: which request is sent to which endpoint, which answers are taken (only decodable answers of the declared type), the status derived from the answer, that metadata only comes from a positive answer, that only resolve endpoints of requested trust anchors are asked; LocalMetadataResolver (Resolve, ResolvePossible, ResolveResponsePayload): the metadata and the messages of the shortest valid chain that has metadata, an error exactly if none has; the smart resolver falls back to exactly that.', rest='The order in which the smart resolver asks the trust anchors is bounded.', rule='resolve endpoint answers of all kinds (statuses, error codes, bodies) against remote and smart resolvers, and local resolvers over generated federations')
prop('P22', level='proof', proved='TrustMarkJWT, refresh and EntityConfigurationTrustMarkConfig.Verify: when the mark is kept, refreshed or refused; what a refreshed mark is; the minute between attempts; defaults.', rest='The answers of trust mark endpoints and the clock within one call are modelled (one instant per call).', rule='trust mark configurations x remaining lifetimes x refresh answers, compared with a reference')
prop('P23', level='proof', proved='CollectEntities of the filtering collector (exactly the entities every filter approves, in order), the provider collector and its filters (registration types, scopes, grant types), the filter for verified chains, the remote and the smart remote collectors (which answers are taken), fetching and caching of subordinate listings.', rest='The walk of the local collector (goroutines and channels) is bounded.', rule='random entity trees x requests compared with a reference collector', assume=[ASSUME_NET])
prop('P24', rule='hostile statements, policies, keys and answers given to every entry point; a crash or hang is a violation')
prop('P25', rule='time stamps and durations of all magnitudes converted in both directions')
