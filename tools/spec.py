#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "packages/"
RV, HC, CT, CB, CV, AC, RI, WA, JS = (P + x for x in (
    "ic-response-verification/src/", "ic-http-certification/src/", "ic-certification/src/", "ic-cbor/src/",
    "ic-certificate-verification/src/", "ic-asset-certification/src/", "ic-representation-independent-hash/src/",
    "ic-response-verification-wasm/src/", "certificate-verification-js/src/"))
V2 = RV + "validation/v2_validation.rs"
PAIR = RV + "verification/verify_request_response_pair.rs"
props = []
def p(id, title, statement, over, text, tests, files, mech, observe, note, technique="runtime monitor: ", state=None, claimed=True):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    props.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=tests, anchors=anchors, _note=note, _tech=technique, _claimed=claimed))

p("C01", "No response is accepted that the canister did not certify (v2)",
  "Whenever version-2 verification accepts a response and reports it as verified, the canister really certified, at the most specific certified path for that request, a definition and hashes that this request and this response satisfy, and the returned status code, headers and body are exactly the certified ones: no uncertified header is returned, other than the certificate header itself. Whoever controls the replica or the boundary node (any change to request, response, header fields, witness, expression path, certificate, trust inputs) cannot obtain acceptance of anything else.",
  ["inputs"], "all certified trees, requests, responses, certificate headers, and all alterations of them that do not forge a signature or a hash",
  "The tests verify a few fixed fixtures with a handful of hand-made alterations; end-to-end certificate tests are mostly switched off. Soundness is about every alteration of every exchange.",
  [PAIR, V2, RV + "validation/common_validation.rs", RV + "verification/certificate_header.rs", RV + "verification/certificate_header_field.rs", RV + "cel/ast_mapping.rs", RV + "types/verified_response.rs"],
  [("version dispatch and assembly of the verified response", PAIR + " verify_request_response_pair, v2_verification"), ("most specific path check", V2 + " validate_expr_path"), ("expression hash and request/response hash checks", V2 + " validate_expr_hash, validate_hashes"), ("root of trust", RV + "validation/common_validation.rs validate_tree")],
  ["return value of verify_request_response_pair"],
  "Each exchange, honest or altered, is decided by the real verifier and by an independently written reference verifier (own hash trees, hashing, path rules, expression reader); any acceptance the reference refuses, and any difference in what is returned, is a violation. Trusts SHA-256 and the BLS primitive.",
  "runtime monitor: reference-verifier oracle over altered exchanges")

p("C02", "Every honestly certified exchange verifies (v2)",
  "A response certified with the certification library (or by any canister following the protocol) and served with its certificate, its witness for the requested path and its expression path is accepted by the verifier for every request the certification covers, with exactly the certified status, headers and body returned. This holds whatever the number of certified entries, the shape of paths and wildcards, the certified and uncertified headers and query parameters, the header-name case and the way certified and uncertified content is mixed.",
  ["inputs", "configurations"], "all sets of certified entries, all covered requests, all definitions, delegated and direct certificates",
  "Tests pin a few paths and definitions; builder and verifier are in different crates and hardly tested against each other.",
  [HC + "tree/certification_tree.rs", HC + "tree/certification.rs", HC + "utils/response_header.rs", HC + "cel/create_cel_expr.rs", PAIR, V2],
  [("entry insertion and witnesses", HC + "tree/certification_tree.rs insert, witness"), ("certificate header", HC + "utils/response_header.rs add_v2_certificate_header"), ("definition text", HC + "cel/create_cel_expr.rs"), ("verification", PAIR)],
  ["return value of verify_request_response_pair on library-built exchanges"],
  "Exchanges are built with the real certification library and, independently, with a protocol model, signed with a test root key, varied in everything left uncertified, and must be accepted with the exact certified content.",
  "runtime monitor: end-to-end completeness oracle")

p("C03", "A certificate is accepted only along a complete chain of trust",
  "Certificate verification succeeds exactly if the certificate's time is within the allowed offset of the given clock, the certificate is signed over its own state tree by the given root key or by a subnet whose public key and canister ranges the root key certified in a non-nested delegation, and, when delegated, the canister lies in those ranges (bounds included). No other certificate is accepted and none satisfying this is refused, whatever the clock, offset, canister id, key and tree shapes.",
  ["inputs"], "all certificates, delegations, ranges, clocks, offsets, keys; including extreme integers and malformed keys and signatures",
  "The existing certificate-verification tests do not build here and use a few fixtures; the bounds, the delegation combinations and malformed keys are unsampled.",
  [CV + "certificate_verification.rs", CV + "signature_verification/mod.rs", CB + "cbor_parse_certificate.rs"],
  [("time window", CV + "certificate_verification.rs verify_certificate_time"), ("delegation and ranges", CV + "certificate_verification.rs verify_delegation, principal_is_within_ranges"), ("signature", CV + "signature_verification/mod.rs")],
  ["return value of VerifyCertificate::verify"],
  "An own BLS test authority signs genuine and altered certificates; the real verdict is compared with an independent reference chain check in both directions.",
  "runtime monitor: reference chain-of-trust oracle")

p("C04", "Hash tree lookup tells present, absent and unknown apart",
  "Looking up a path in any well-formed (sorted, possibly pruned) hash tree reports a value only if the tree contains it at that path, reports absence only if the tree proves it in every complete tree with the same root hash, and otherwise reports that it is unknown. Subtree lookup obeys the same rule.",
  ["inputs"], "all hash trees and prunings, all paths",
  "Tests check one textbook tree; the three-valued answer depends on every combination of neighbours, prunings, empty nodes and labels.",
  [CT + "hash_tree/mod.rs"], [("three-valued lookup", CT + "hash_tree/mod.rs lookup_path, lookup_subtree, lookup_label")],
  ["return values of HashTree::lookup_path, lookup_subtree and list_paths"],
  "Every lookup is compared with the specification's own algorithm and with the complete tree it was pruned from; includes all small trees from an exhaustive generator sample.",
  "runtime monitor: specification lookup as oracle")

p("C05", "Pruning and merging hash trees preserve the root hash and content",
  "The root hash of a hash tree is the specified domain-separated hash of its structure, so that pruning any part leaves it unchanged and any two trees with different content have different root hashes. Merging two trees pruned from the same tree yields a tree with the same root hash that reveals what either revealed and nothing else.",
  ["inputs"], "all trees, prunings and pairs of prunings", "Tests check a few digests and merges of fixed trees.",
  [CT + "hash_tree/mod.rs", CT + "nested_rb_tree.rs"], [("digest", CT + "hash_tree/mod.rs digest"), ("merge", CT + "nested_rb_tree.rs merge_hash_trees")],
  ["HashTree::digest, merge_hash_trees"],
  "Digests are recomputed by an independent implementation before and after pruning and merging; merged trees are compared node by node with what either side revealed.",
  "runtime monitor: independent digest oracle")

p("C06", "The certified map behaves as a sorted map and stays balanced",
  "After any history of insertions, modifications and deletions the certified red-black map contains exactly the resulting entries in key order, its root hash is the specified hash of that content's tree with every cached hash up to date, and it stays balanced with logarithmic depth.",
  ["histories"], "all operation histories over arbitrary keys and values", "Unit tests use short fixed histories; rebalancing on deletion has many cases that only particular histories reach.",
  [CT + "rb_tree/mod.rs"], [("balancing and hash maintenance", CT + "rb_tree/mod.rs insert, delete, modify, Node::rotate_*, balance")],
  ["RbTree public operations, root_hash, iteration, witnesses"],
  "Model-based histories against an ordered map; root hash and structure re-derived from the tree's own full witness after each step.",
  "runtime monitor: model-based history checker", state=[("subtree hash", "cached digest of each node", CT + "rb_tree/mod.rs")])

p("C07", "Witnesses prove exactly the answer, against the root hash",
  "A witness for any key, key range, prefix or nested path has the map's root hash, and looking the key up in it gives the value if it is present and proven absence if it is not, for every key the witness was requested for. A range or prefix witness reveals or disproves every key of the range, and a witness discloses no value outside what was asked for beyond neighbouring keys.",
  ["inputs", "histories"], "all maps and all witness requests", "Tests check a handful of keys in one map.",
  [CT + "rb_tree/mod.rs", CT + "nested_rb_tree.rs"], [("witness construction", CT + "rb_tree/mod.rs witness, key_range, keys_with_prefix; nested_rb_tree.rs witness")],
  ["returned witness trees"],
  "Witnesses are judged with the specification's lookup and an independent digest; every present and many absent keys around the requested one are checked.",
  "runtime monitor: specification lookup as oracle over witnesses")

p("C08", "The nested certified map equals nested maps under any history",
  "After any history of insertions, deletions and clearing of nested paths, the nested certified map holds exactly the content of a model of nested maps: values are replaced, deleting the last entry below a path prunes emptied parents, other branches are unaffected, and the root hash depends on the content's tree only.",
  ["histories"], "all histories of nested operations", "Tests cover short histories on shallow paths.",
  [CT + "nested_rb_tree.rs"], [("nested operations", CT + "nested_rb_tree.rs insert, delete, clear, contains_path, get")],
  ["NestedTree operations, root_hash and witnesses"], "Model-based histories against nested ordered maps with content and hash comparison after every step.",
  "runtime monitor: model-based history checker")

p("C09", "CBOR encodings decode to exactly what they encode, or fail",
  "Certificates, delegations and hash trees round-trip through their CBOR encodings unchanged, including the root hash. The decoders accept only complete well-formed encodings and yield exactly the value encoded (canonical or not); truncated, extended or ill-formed input is refused, never decoded to something else.",
  ["inputs"], "all trees, certificates, values, and all byte strings", "Tests decode a few fixtures; malformed input is hardly sampled.",
  [CB + "cbor_parser.rs", CB + "cbor_parse_certificate.rs", CB + "cbor_parse_hash_tree.rs", CT + "certificate.rs", CT + "hash_tree/mod.rs"],
  [("parser", CB + "cbor_parser.rs"), ("mapping to certificate and tree", CB + "cbor_parse_certificate.rs, cbor_parse_hash_tree.rs"), ("serialisation", CT + "certificate.rs, hash_tree/mod.rs serde")],
  ["return values of the decoders and of the serde implementations"], "An independent strict CBOR decoder judges every encoding, including bit-level corruption; decoders must agree.",
  "runtime monitor: independent strict decoder as oracle")

p("C10", "Hostile input never crashes, hangs or exhausts the verifier",
  "No input taken from the network (response and certificate header bytes, certificate, witness, expression, request, request URL, compressed body, candid messages) makes decoding, verification or serving panic, overflow the stack, loop or allocate more than a small multiple of the input's size; such input leads to an orderly error or rejection. Decompression of version-1 bodies is excluded from the size bound.",
  ["inputs"], "all byte strings, nestings, lengths and URLs up to hundreds of kilobytes", "Tests feed well-formed input; robustness is about every malformed one.",
  [CB + "cbor_parser.rs", CB + "cbor_parse_certificate.rs", CB + "cbor_parse_hash_tree.rs", RV + "cel/parser.rs", RV + "verification/certificate_header.rs", PAIR, HC + "http/http_request.rs", CV + "signature_verification/mod.rs"],
  [("bounded parsing", CB + "cbor_parser.rs; " + RV + "cel/parser.rs"), ("checked time arithmetic", CV + "certificate_verification.rs")],
  ["panics, signals, CPU time per case, counted allocation peaks"],
  "Hostile inputs run with overflow checks, an 8 MiB stack, a CPU watchdog and a counting allocator; any panic, abort, hang or over-allocation is a violation.",
  "runtime monitor: panic/abort/hang/allocation sanitizer over hostile inputs", claimed=False)

p("C11", "Representation-independent hash depends on exactly the content",
  "The representation-independent hash of a map of names to strings, bytes, numbers and (nested) arrays of these equals the specified hash, independent of the order in which entries are given, and changes whenever any name or value changes.",
  ["inputs"], "all maps and permutations", "Tests check the specification's example values only.",
  [RI + "representation_independent_hash.rs"], [("hash", RI + "representation_independent_hash.rs")], ["hash values"],
  "Independent implementation of the specified hash; permutations and single changes are checked.",
  "runtime monitor: independent hash oracle")

p("C12", "Request and response hashes cover exactly what is certified",
  "The request hash covers the method, the body and exactly the certified headers and query parameters (every occurrence, names case-insensitive) together with whether the URL has a query string at all, and the response hash covers the status code, the body, the certificate expression header and exactly the certified headers: a change to any of these changes the hash, a change to anything else does not. Both equal the protocol's specified value, and computing them twice or from reordered headers of different names gives the same value.",
  ["inputs"], "all requests, responses, definitions", "Tests compare fixed digests.",
  [HC + "hash/request_hash.rs", HC + "hash/response_hash.rs"], [("hashes and filters", HC + "hash/request_hash.rs request_hash; response_hash.rs filter_response_headers, response_hash")], ["hash values and filtered headers"],
  "An independent implementation of the protocol's hashing judges values, filters and the effect of every single change.",
  "runtime monitor: independent hash oracle with single-change relations")

p("C13", "Certificate expressions mean the same to builder and verifier",
  "Every expression text the certification library produces is understood by the verifier as exactly the definition it was built from, for any certifiable header and query parameter name. A text that is not a well-formed expression is refused, and none is ever understood as certifying less than, or something other than, what it says.",
  ["inputs"], "all definitions, layouts of white space, and near-miss texts", "Tests parse a few fixed texts.",
  [RV + "cel/parser.rs", RV + "cel/ast_mapping.rs", HC + "cel/create_cel_expr.rs", HC + "cel/cel_builder.rs"], [("text to definition", RV + "cel/parser.rs, ast_mapping.rs"), ("definition to text", HC + "cel/create_cel_expr.rs")], ["acceptance of exchanges certified under known meanings"],
  "Expressions are decided end to end: a canister certifies the text under one meaning and the verifier must accept exactly if the independent reader gives that meaning.",
  "runtime monitor: reference expression reader, end-to-end")

p("C14", "The most specific certified path decides; no wildcard is bypassed",
  "A certified exact path or wildcard covers a request exactly if it equals the request's path or is a wildcard for the path itself or for one of its leading runs of whole path segments, and the verifier accepts a response only under the most specific covering path that exists in the certified tree, which the witness must prove. Path segments whatever their spelling are never confused with the markers that end paths.",
  ["inputs"], "all paths, wildcards and sets of certified paths", "Tests use short fixed paths.",
  [HC + "utils/wildcard_paths.rs", V2, HC + "tree/certification_tree_path.rs"], [("path rules", HC + "utils/wildcard_paths.rs"), ("most specific path", V2 + " validate_expr_path")], ["wildcard functions, verdicts"],
  "Path functions against whole-segment definitions; decisions over all pairs of (responding path, requested path) with complete and pruned trees against the reference.",
  "runtime monitor: path-rule oracle")

p("C15", "Certification is skipped only where the canister certified skipping",
  "A response is passed as exempt from certification only if the canister itself certified, at the most specific certified path for the request, an expression that waives certification, and it is then returned without verified content. The library's helper for skipping produces exactly such responses, for every path.",
  ["inputs"], "all certified trees mixing waived and certified paths; all claims", "Tests cover one path.",
  [PAIR, V2, HC + "utils/skip_certification.rs"], [("skip branch", V2 + " v2 verification"), ("helper", HC + "utils/skip_certification.rs")], ["verdicts"],
  "Claims to be exempt, genuine and not, decided by the real and the reference verifier.", "runtime monitor: reference-verifier oracle over exemption claims")

p("C16", "Version-1 verification accepts exactly certified asset bodies",
  "Version-1 verification accepts a response exactly if the certified asset tree holds the hash of its body, raw or decoded per its content encoding, at the requested path, or holds it at the index page while proving that the requested path is absent. The accepted response is reported with its body and without any header or status.",
  ["inputs"], "all asset trees, witnesses, paths, encodings, bodies", "Tests cover fixed assets.",
  [RV + "validation/v1_validation.rs", RV + "verification/body.rs", PAIR], [("v1 check", RV + "validation/v1_validation.rs validate_body"), ("decoding", RV + "verification/body.rs")], ["verdicts"],
  "Asset trees, witnesses and encodings generated, judged by a reference.", "runtime monitor: reference-verifier oracle (v1)")

p("C17", "The asset router's responses are the certified ones and verify",
  "For every set of assets and configurations and every request, the asset router serves the asset the configuration designates for the path (exact path or alias, otherwise the nearest configured fallback scope, or the redirect), with its content and exactly the configured headers and status, and the response verifies against the router's root hash for that request. It reports that nothing matches exactly when nothing is configured for the path. Requests are GET requests without a query string and without repeated slashes in the path; each URL, alias, scope and redirect is configured once.",
  ["configurations", "inputs"], "all assets, file and pattern configurations, aliases, fallbacks, redirects and request paths", "Tests use one fixed site.",
  [AC + "asset_router.rs", AC + "asset_config.rs", AC + "asset.rs"], [("routing", AC + "asset_router.rs serve_asset, get_asset_for_request"), ("certification", AC + "asset_router.rs certify_assets, prepare_*")], ["responses of serve_asset, verified with the real verifier"],
  "A model of the documented routing rules predicts each response; it is then verified with the real verifier under a certificate over the router's root hash.", "runtime monitor: routing model plus end-to-end verification", claimed=False)

p("C18", "Deleting and replacing assets leaves no stale certification",
  "After any history of certifying, re-certifying and deleting assets with their configurations, the router serves exactly what the history leaves, deleted responses are neither served nor provable from the certified root hash, and deleting everything that was certified restores the root hash from before. Deleting something never certified changes nothing, a call refused for a malformed configuration has no effect, a certification that fails midway leaves nothing served that does not verify and nothing that deleting everything does not remove, and certifications that share the router's tree but are not its own are left alone.",
  ["histories"], "all histories of certify and delete calls over assets of all sizes, encodings, aliases, fallbacks, redirects", "Tests delete once after certifying once.",
  [AC + "asset_router.rs", HC + "tree/certification_tree.rs", CT + "nested_rb_tree.rs"], [("deletion", AC + "asset_router.rs delete_assets, remove_static_response, remove_fallback_response, delete_all_assets")], ["serve_asset, get_assets, root_hash, replayed old responses"],
  "Histories against a model of the site; every served and every formerly served response is re-verified.", "runtime monitor: model-based history checker with replay of old responses", claimed=False)

p("C19", "Range-served chunks reassemble to exactly the asset",
  "A large asset is served in consecutive chunks such that following the ranges from the first response (asking for `bytes=N-`, N being the end of what was received) reconstructs exactly the asset in the encoding chosen, every chunk states its true range and total length, and every chunk verifies, for a request from where it begins and for none from elsewhere. An asset that is not split is served whole, and verifies, whatever range is asked for. Malformed ranges are refused without a response.",
  ["inputs"], "all sizes around chunk boundaries, encodings, range headers", "Tests use fixed sizes.",
  [AC + "asset_router.rs"], [("chunks", AC + "asset_router.rs insert_static_asset, prepare_asset_response_and_certification, parse_range_header_str")], ["serve_asset responses"],
  "Ranges are followed as a client would and the concatenation compared with the asset.", "runtime monitor: reassembly oracle", claimed=False)

p("C20", "Content encoding is negotiated to one the client accepts",
  "The asset router serves an encoded variant only if it was certified for that path and the client listed that encoding, in any letter case, as acceptable (that is, not with a quality of zero), serves the most preferred such variant (br, zstd, gzip, deflate, identity, in this order), and otherwise serves the unencoded asset; the content-encoding header always names the encoding of the served content.",
  ["inputs", "configurations"], "all accept-encoding headers and sets of certified variants", "Tests use fixed headers.",
  [AC + "asset_router.rs"], [("negotiation", AC + "asset_router.rs prioritized_encodings, get_encoded_asset")], ["serve_asset responses"],
  "Header texts generated and read by an independent reader; the served variant is compared.", "runtime monitor: negotiation oracle", claimed=False)

p("C21", "Cached signature checks never change a verdict",
  "Verifying a certificate gives the same verdict every time, regardless of which certificates were verified before or are being verified concurrently: no certificate is accepted because a different key, message or signature combination was accepted earlier, and none is refused because one failed.",
  ["histories", "schedules"], "all sequences and interleavings of verifications that recombine keys, signatures and contents", "Tests verify each thing once, in one thread.",
  [CV + "signature_verification/signature_cache.rs", CV + "signature_verification/mod.rs"], [("cache keyed by hash of key, signature and message", CV + "signature_verification/signature_cache.rs")], ["verdicts of repeated and concurrent verifications"],
  "Families of certificates recombining keys, signatures and contents, repeated in shuffled order and from several threads with injected delays, against the reference; the thorough tier overflows the cache.",
  "runtime monitor: verdict-consistency checker over histories and threads", state=[("signature cache", "keys of signatures known valid", CV + "signature_verification/signature_cache.rs")])

p("C22", "HTTP requests and responses survive the candid interface",
  "Requests and responses encode to and decode from the candid HTTP gateway interface without loss: method, URL, headers in order, body, status, upgrade flag and certificate version are unchanged, and values that are not valid (unknown method, status out of range) are refused. Building them in any order of steps, changing headers, and converting them (to builders and to their update variants) keeps every other part as it was. Path and query are derived from the URL as URL-decoded path and raw query, for relative and absolute URLs.",
  ["inputs"], "all requests, responses, URLs", "Tests round-trip single examples.",
  [HC + "http/http_request.rs", HC + "http/http_response.rs"], [("candid implementation", HC + "http/http_request.rs, http_response.rs"), ("URL access", HC + "http/http_request.rs get_path, get_query")], ["encoded bytes and decoded values"],
  "An independent candid definition reads what the library writes and the reverse; builders, conversions and accessors run against a plain record.", "runtime monitor: independent interface definition as oracle")

p("C23", "Verification version is chosen by the certificate, floored by the caller",
  "A response is verified under the version its certificate header states, version 1 if it states none; a version below the caller's minimum or outside the supported ones is refused. The reported version is the one used, and the header's fields are understood in any order.",
  ["inputs", "configurations"], "all version fields, minimum versions and field orders", "Tests sample few combinations.",
  [PAIR, RV + "verification/certificate_header.rs"], [("version dispatch", PAIR), ("header fields", RV + "verification/certificate_header.rs")], ["verdicts and reported versions"],
  "Exchanges certified under both versions are decided for every combination of stated and required version.", "runtime monitor: version-rule oracle")

p("C24", "The WebAssembly binding agrees with the native verifier",
  "For every request (with a valid HTTP method), response and trust input given as JavaScript values of the declared types, the WebAssembly binding returns the same verdict, version, status code, headers and body as the native verifier on the same data. A rejected exchange surfaces as a thrown ResponseVerificationError carrying the rejection's code and message, and so does a response whose status code no response can have; neither traps, and inputs are not modified.",
  ["inputs"], "all exchanges, accepted and refused", "Wasm tests cover conversions of single objects only.",
  [WA + "lib.rs", WA + "request.rs", WA + "response.rs", RV + "types/verification_result.rs", RV + "types/verified_response.rs", RV + "error.rs"], [("conversions", WA + "request.rs, response.rs; " + RV + "types, error.rs")], ["values returned to node"],
  "The wasm module is built and run under node on exchanges whose native outcome is recorded; outcomes are compared field by field.", "runtime monitor: differential execution native vs wasm", claimed=False)

p("C25", "The certification tree serves and proves exactly its current entries",
  "After any history of inserting, deleting and clearing entries, each present entry's witness proves its expression, request and response hashes against the tree's root hash and the exchange verifies, while entries that were deleted can no longer be proven or served. Entries sharing a path, an expression or a request hash do not disturb each other.",
  ["histories"], "all histories over exact and wildcard paths, sharing definitions and hashes", "Tests insert and delete a few entries.",
  [HC + "tree/certification_tree.rs", CT + "nested_rb_tree.rs"], [("entries", HC + "tree/certification_tree.rs insert, delete, clear, witness")], ["witnesses, root hash, verdicts of replayed exchanges"],
  "Histories against a set model; witnesses judged by the specification's lookup; deleted exchanges are replayed.", "runtime monitor: model-based history checker")

p("C26", "The JavaScript verifier accepts exactly trustworthy, current, matching trees",
  "verifyCertification of the JavaScript package returns the decoded tree it was given if and only if the certificate is verified for the given canister and root key, the certificate's time is within the given offset of the current time (in whole milliseconds, inclusive), and the tree's root hash equals the certified data the certificate states for that canister. Otherwise it rejects with an error: CertificateTimeError if the time is the reason, CertificateVerificationError if the certified data is missing or different.",
  ["inputs"], "all certificates, trees, clocks and offsets", "The spec file samples a few certificates and cannot run offline.",
  [JS + "index.ts", JS + "error.ts"], [("time window", JS + "index.ts validateCertificateTime"), ("root hash against certified data", JS + "index.ts validateTree")], ["promise returned by verifyCertification"],
  "The package's source runs under node with stand-ins for the absent agent library and a controlled clock; each call is judged by an independent statement of the conditions.", "runtime monitor: input-output oracle with controlled clock")

p("C27", "A certification is created only for a response that declares it",
  "Creating a response-only or full certification succeeds exactly if the response carries the certificate expression header once, its name in any letter case, with exactly the text of the definition being certified, and, for a full certification, the request's URL can be parsed; otherwise it fails with an error. The certification takes the place in the tree that the protocol specifies for that text, request hash and response hash (with a body hash supplied by the caller in place of the body's), and two certifications are equal exactly if they take the same place.",
  ["inputs"], "all definitions, requests, responses, expression headers (missing, repeated, altered), body hashes", "Tests try one mismatch, one missing and one repeated header.",
  [HC + "tree/certification.rs", HC + "tree/certification_tree_entry.rs", HC + "tree/certification_tree_path.rs"], [("creation", HC + "tree/certification.rs full, response_only, validate_response"), ("place in the tree", HC + "tree/certification.rs to_tree_path")], ["results of HttpCertification::full and response_only, root hash of a tree with that entry only"],
  "Each attempt is judged by a model of the rule; the place is checked by the root hash of a tree holding only that entry.", "runtime monitor: model oracle on creation outcomes and places")

p("C28", "Certificates made by the testing kit verify exactly when built to",
  "A certificate built by the certification testing crate (and its WebAssembly binding) for a canister, certified data, time, delegation and nested delegation is accepted by the certificate verifier exactly if it was built as a valid one, and carries exactly the data it was built for.",
  ["inputs"], "all builder settings", "No test of the crate runs offline.",
  [P + "ic-certification-testing/src/certificate_builder.rs", P + "ic-certification-testing-wasm/src/certificate_builder.rs"], [("certificate construction", P + "ic-certification-testing/src/certificate_builder.rs build")], ["CertificateBuilder::build"],
  "Not claimed.", "none", claimed=False)

p("C29", "Canisters built from the library answer with responses that verify",
  "A canister that certifies its responses with the library as documented, compiled to WebAssembly and run on the system interface, answers every request after any history of updates, upgrades and trapped calls with the designated response, and that response verifies against a certificate for the data the canister has certified last; what an earlier state answered no longer does. A request to change something asks for an upgrade to an update call.",
  ["histories", "inputs"], "all call histories and requests on the example canisters and on a canister serving assets", "Examples are tested against a replica, which samples a few requests and cannot run offline.",
  [AC + "asset_router.rs", HC + "tree/certification_tree.rs", HC + "utils/response_header.rs", CT + "rb_tree.rs", "examples/http-certification/json-api/src/backend/src/lib.rs", "examples/http-certification/skip-certification/src/backend/src/lib.rs", "examples/http-certification/upgrade-to-update-call/src/rust-backend/src/lib.rs", "examples/certification/certified-counter/src/backend/src/lib.rs"], [("canister flows", "examples/*; " + AC + "asset_router.rs; " + HC + "utils")], ["candid replies, certified data set by the canister"],
  "The repository's offline-buildable examples and an asset canister run as WebAssembly under node with a stand-in for the system interface; each reply is compared with a model and verified.", "runtime monitor: model-based history checker on compiled canisters")

NOT_APPLICABLE = [
    {"property": "C28", "reason": "the crate cannot be compiled here, so no execution can be observed: its dependencies ic-types, ic-crypto-tree-hash and others come from a git repository that is neither vendored nor in the cargo cache"},
]

CLAIM_NOW = set(open(os.path.join(HERE, "tools", "claimed.txt")).read().split())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}) + "\n")
checks, na = [], list(NOT_APPLICABLE)
for x in props:
    if x["id"] in CLAIM_NOW:
        checks.append({"property": x["id"], "quick_cmd": f"./run.sh {x['id']} quick", "thorough_cmd": f"./run.sh {x['id']} thorough", "technique": x["_tech"], "level": "exploration", "level_note": x["_note"]})
    elif not any(n["property"] == x["id"] for n in na):
        na.append({"property": x["id"], "reason": "monitor under construction, not claimed yet"})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every monitor observes the public API of the crates, built from /repo's working tree by a harness crate (see DESIGN.md). Repairs are unguarded fix: commits listed in known_findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for x in props:
    assert len(x["title"]) <= 80, x["id"]
