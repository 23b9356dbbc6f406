#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
HT = "packages/ic-certification/src/hash_tree/mod.rs"
RB = "packages/ic-certification/src/rb_tree/mod.rs"
NE = "packages/ic-certification/src/nested_rb_tree.rs"

prop("C01", "The digest of a hash tree is the one the specification defines",
 "For every hash tree, the digest is the domain-separated SHA-256 reconstruction of the Internet Computer interface specification: empty, fork, labeled and leaf nodes are hashed with their own separator over exactly their children's digests, label bytes and contents, and a pruned node stands for the hash it carries. Replacing any subtree by a pruned node with that subtree's digest therefore leaves the digest unchanged.",
 ["inputs"], "all hash trees of any shape and size, any labels and leaf contents",
 "The tests compare the digest of a handful of example trees with recorded hashes; the property ranges over every tree shape and content.",
 [HT], [("digest and domain separation", HT+": HashTreeNode::digest, domain_sep"), ("fork_hash, leaf_hash, labeled_hash", HT)], ["HashTree::digest"])

prop("C02", "Path lookups never misreport presence or absence",
 "On every well-formed hash tree, looking up a path or a subtree gives exactly the answer of the Internet Computer interface specification: found with the content at that path, absent only when the tree proves it absent, unknown when pruned parts may hold it, error when the path ends inside an inner node. In particular a value that may be hidden in a pruned part is never reported absent, and a value that is present is never reported absent or unknown.",
 ["inputs"], "all well-formed hash trees (any mixture of forks, empty and pruned nodes) and all paths",
 "Tests look up a few labels in fixed example trees; empty and pruned nodes at other places of a fork, deeper nesting and boundary labels are not sampled.",
 [HT], [("label search over flattened forks", HT+": HashTreeNode::lookup_label"), ("path descent", HT+": lookup_path, lookup_subtree")], ["HashTree::lookup_path", "HashTree::lookup_subtree"])

prop("C03", "The certified map's root hash always matches its contents",
 "After any sequence of insertions, modifications and deletions, the root hash the certified map reports equals the digest of the hash tree it materialises, and that tree contains exactly the entries of the map in key order, each labeled with its key and holding the value's own tree.",
 ["histories", "inputs"], "all operation histories over arbitrary keys and values",
 "Stored hashes are recomputed incrementally on every rotation; tests check short scripted histories, while a stale hash shows only after particular rebalancing patterns.",
 [RB], [("incremental subtree hash", RB+": update_subtree_hash, compute_subtree_hash, rotate_left, rotate_right"), ("three_way_fork", RB)], ["RbTree::root_hash", "RbTree::as_hash_tree"],
 [("subtree_hash", "hash of the full hash tree of a node and its children", RB+": Node.subtree_hash")])

prop("C04", "The certified map behaves as an ordered map and never fails",
 "After any sequence of operations the certified map holds exactly the entries an ordered map would: insertion replaces or adds one entry, deletion removes one entry and only that entry, in-place modification changes one value, and lookup and iteration return the entries in strictly increasing key order. No operation panics, and the tree stays balanced, so every operation takes logarithmic time.",
 ["histories", "inputs"], "all operation histories over arbitrary keys, including deletions of present and absent keys in any order",
 "Deletion in a left-leaning red-black tree has many rebalancing cases, each reached only by particular shapes; tests exercise a few hundred shapes.",
 [RB], [("insert, delete, balance, rotations", RB), ("get, modify, iter, for_each", RB)], ["RbTree::{get,insert,modify,delete,iter,for_each}"])

prop("C05", "Witnesses reproduce the root hash and prove what was asked for",
 "Every witness the certified map produces has the map's root hash as its digest. A witness for one key proves its value when the key is present and its absence otherwise; a key or value range witness and a prefix witness prove, for every key in the range or with the prefix, whether it is present, and a value range also proves the values.",
 ["inputs", "histories"], "all map contents and shapes, all keys, ranges and prefixes",
 "Tests check witnesses on small maps with a few ranges; a missing boundary neighbour or a wrongly pruned sibling shows only for particular range ends and tree shapes.",
 [RB], [("witness construction by range", RB+": witness_range_above/below/between, lookup_and_build_witness"), ("bounds", RB+": lower_bound, upper_bound, right_prefix_neighbor")], ["RbTree::{witness,nested_witness,key_range,value_range,keys,keys_with_prefix}"])

prop("C06", "The nested certified map is a map from paths to values",
 "After any sequence of operations the nested certified map answers for each path as a map from paths would: an inserted path can be found, deleting a path removes it (and what lies below it) and nothing else, emptied branches disappear from lookups and from the root hash, and the root hash equals the digest of the materialised tree. A witness for a path has that root hash and proves the path's presence with its content, or its absence.",
 ["histories", "inputs"], "all histories over arbitrary path sets without conflicting leaf/branch use, all query paths",
 "Tests use a few fixed path sets; removal that empties several levels, and witnesses for paths that leave the tree at different depths, depend on the whole history.",
 [NE, RB], [("recursive insert, delete, modify", NE), ("witness recursion", NE+": witness, nested_witness")], ["NestedTree::{get,insert,delete,modify,contains_path,contains_leaf,witness,root_hash}"])

prop("C07", "Merging two witnesses keeps the root hash and everything both reveal",
 "Merging two hash trees that are prunings of the same tree never fails, and gives a tree with the same root hash in which every lookup that either of the two could answer has the same answer.",
 ["inputs"], "all pairs of prunings of one hash tree",
 "Tests merge a few hand-made pairs; the property ranges over all pairs of prunings, including one side pruned above the other.",
 [NE], [("structural merge", NE+": merge_hash_trees")], ["merge_hash_trees"])

prop("C08", "The representation-independent hash is the specified one, in any order",
 "The representation-independent hash of a map is the SHA-256 of the concatenation of the sorted hash pairs of its entries, with strings, bytes, numbers (unsigned LEB128) and arrays hashed as the interface specification prescribes. It does not depend on the order in which the entries are given, and the response and request hashes built on it inherit this.",
 ["inputs"], "all lists of named values of every kind, in every order",
 "Tests compare a few known maps with recorded hashes; order-independence and number encoding hold for all lists and all numbers or not at all.",
 ["packages/ic-representation-independent-hash/src/representation_independent_hash.rs"], [("hash pairs, sort, concatenate", "representation_independent_hash.rs: representation_independent_hash, hash_key_val, hash_of_map")], ["representation_independent_hash"])

prop("C09", "Decoding untrusted CBOR is total and exact",
 "Decoding any byte string as a certificate, hash tree, principal array or plain CBOR value terminates with a value or an error and never panics, aborts or allocates by an unchecked length. Malformed or truncated input is rejected: a map or array that declares more elements than the input holds, an integer or length that does not fit, a node with the wrong number of parts, or a pruned hash of the wrong size is an error, not a shorter or different value.",
 ["inputs"], "all byte strings",
 "Tests decode valid fixtures and a few malformed ones; hostile lengths, nesting and truncation points are unbounded.",
 ["packages/ic-cbor/src/cbor_parser.rs", "packages/ic-cbor/src/cbor_parse_hash_tree.rs", "packages/ic-cbor/src/cbor_parse_certificate.rs"],
 [("CBOR primitives", "packages/ic-cbor/src/cbor_parser.rs"), ("hash tree decoding", "packages/ic-cbor/src/cbor_parse_hash_tree.rs"), ("certificate decoding", "packages/ic-cbor/src/cbor_parse_certificate.rs")],
 ["parse_cbor", "CertificateToCbor::from_cbor", "HashTreeToCbor::from_cbor", "parse_cbor_string_array", "parse_cbor_principals_array"])

prop("C10", "Hash trees and certificates survive encoding and decoding unchanged",
 "Encoding a hash tree or certificate (nested within the depth both decoders accept) as CBOR and decoding it again, with either of the two decoders the library offers, gives back the same tree, signature and delegation, and so the same digest.",
 ["inputs"], "all hash trees and certificates",
 "Tests round-trip a few fixtures.",
 [HT, "packages/ic-certification/src/certificate.rs", "packages/ic-cbor/src/cbor_parse_hash_tree.rs", "packages/ic-cbor/src/cbor_parse_certificate.rs"],
 [("serde encoding", HT+": serde_impl"), ("decoding of parsed values", "packages/ic-cbor/src/cbor_parse_hash_tree.rs")], ["HashTreeToCbor::from_cbor", "CertificateToCbor::from_cbor", "serde"])

prop("C11", "Certificates outside the accepted time window are rejected",
 "Certificate verification accepts the certificate's time exactly when it lies within the allowed offset of the current time, at both ends, and otherwise reports whether it is too old or too far in the future. This holds for all times and offsets, without overflow, and a certificate without a readable time is rejected.",
 ["inputs"], "all 128-bit current times and offsets, all certificate times",
 "Tests use one time and offsets around it; arithmetic at the ends of the range is not sampled.",
 ["packages/ic-certificate-verification/src/certificate_verification.rs"], [("time check", "certificate_verification.rs: verify_certificate_time")], ["VerifyCertificate::verify"])

prop("C12", "Only certificates signed for the canister are accepted",
 "A certificate is accepted only if its signature over its own root hash verifies under the given root key, or under the subnet key of a delegation that is itself a certificate signed under the root key, holds no further delegation, names that subnet's key, and lists a canister range that contains the canister. Any change to the tree, the signature, the key or the delegation that breaks one of these conditions makes verification fail.",
 ["inputs"], "all certificates, delegations, canister ranges, canister ids and root keys",
 "Tests tamper with single fields of one fixture; range boundaries, several ranges, nested delegations and malformed keys range over all inputs.",
 ["packages/ic-certificate-verification/src/certificate_verification.rs", "packages/ic-certificate-verification/src/signature_verification/mod.rs"],
 [("signature check over domain-separated root hash", "certificate_verification.rs: verify_certificate_signature"), ("delegation check", "certificate_verification.rs: verify_delegation"), ("DER key extraction", "certificate_verification.rs: extract_der")], ["VerifyCertificate::verify"])

prop("C13", "The signature cache never changes a verdict",
 "Verification with the signature cache gives the same verdict as without it, whatever was verified before: a (signature, message, key) triple is accepted only if it verifies, a rejected one is never remembered as accepted, and no triple is mistaken for another one.",
 ["histories", "inputs"], "all sequences of verifications",
 "Tests verify the same signature twice; confusion between triples and evictions depend on histories.",
 ["packages/ic-certificate-verification/src/signature_verification/mod.rs", "packages/ic-certificate-verification/src/signature_verification/signature_cache.rs"],
 [("cache entry identity", "signature_cache.rs: SignatureCacheEntry"), ("lookup before, insertion after verification", "signature_verification/mod.rs: verify_signature")], ["verify_signature"])

prop("C14", "The request hash covers exactly what the certification names",
 "The request hash is the specified hash of the method, the certified headers by lower-case name with all their values, the certified query parameters in request order, and the body. Two requests that agree on these have the same hash, changing any of these changes what is hashed, and anything not named by the certification, and header name case, has no influence.",
 ["inputs"], "all requests (method, URL, headers, body) and all certification header/query selections",
 "Tests hash a few fixed requests; duplicates, case variants, ordering, escaping and empty queries are open-ended.",
 ["packages/ic-http-certification/src/hash/request_hash.rs"], [("selection and hashing", "request_hash.rs: request_hash, get_request_hash_headers..., query filtering")], ["request_hash"])

prop("C15", "The response hash covers exactly the certified headers, status and body",
 "The response hash is the specified hash of the status code, the certified headers by lower-case name, the certification expression header and the body; the certificate header itself is never included. With an inclusion list exactly the listed headers are covered, with an exclusion list exactly the others, independent of header name case.",
 ["inputs"], "all responses (status, headers including duplicates, body) and all inclusion/exclusion lists",
 "Tests use a handful of header lists; case variants, duplicates and lists naming the certificate headers themselves are not sampled.",
 ["packages/ic-http-certification/src/hash/response_hash.rs"], [("header filtering", "response_hash.rs: filter_response_headers"), ("hashing", "response_hash.rs: response_hash, response_headers_hash")], ["filter_response_headers", "response_hash", "response_headers_hash"])

prop("C16", "A certification expression survives being written and read back",
 "For every certification that can be built from header and query names without quotes, backslashes or control characters, parsing the expression text produced for it succeeds and gives back the same certification: the same request and response selection with the same header and query names in the same order. Text that is not such an expression is rejected and never read as a weaker certification.",
 ["inputs"], "all certifications the builders can produce, all texts",
 "Tests cover the builder combinations with two or three fixed names each.",
 ["packages/ic-http-certification/src/cel/create_cel_expr.rs", "packages/ic-response-verification/src/cel/parser.rs", "packages/ic-response-verification/src/cel/ast_mapping.rs"],
 [("text creation", "create_cel_expr.rs"), ("parsing", "cel/parser.rs"), ("mapping to a certification", "cel/ast_mapping.rs")], ["create_cel_expr", "parse_cel_expression", "map_cel_ast"])

prop("C17", "Every certified entry can be proved; removed entries cannot",
 "After any sequence of insertions and deletions, for every entry in the HTTP certification tree a witness for it and a request path that its path matches (an exact path: the same path; a wildcard: its segments are a prefix of the request's) can be produced, has the tree's root hash, contains the entry's hashes at its expression path, and shows that no more specific entry applies to the request. Entries that were deleted are not found in any witness, and deleting one entry leaves the others provable.",
 ["histories", "inputs"], "all histories of insertions and deletions, all expression paths and request paths",
 "Tests insert a few entries; interference between overlapping exact and wildcard paths depends on the set of entries.",
 ["packages/ic-http-certification/src/tree/certification_tree.rs", "packages/ic-http-certification/src/utils/wildcard_paths.rs"],
 [("entry paths", "certification_tree.rs, certification_tree_entry.rs"), ("absence proofs for more specific paths", "certification_tree.rs: witness, wildcard_paths.rs")], ["HttpCertificationTree::{insert,delete,witness,root_hash}"])

prop("C18", "Path precedence: exactly the more specific paths are considered",
 "For every request path and chosen expression path, the set of paths that must be shown absent is exactly the set of exact and wildcard paths that would match the request more specifically; a wildcard matches a request exactly when its segments are a prefix of the request's, trailing slash aside (a wildcard that is the request's own path plus a trailing slash matches it, without taking precedence over shorter wildcards). Certification, expression and request paths are split the same way, keeping all non-empty segments in order and a trailing slash, and all of it terminates without panicking for all paths.",
 ["inputs"], "all request paths (including empty, repeated and trailing slashes, reserved markers) and expression paths",
 "Tests list expected results for a few paths; trailing slashes, empty segments and reserved segment names at other positions are not sampled.",
 ["packages/ic-http-certification/src/utils/wildcard_paths.rs", "packages/ic-http-certification/src/tree/certification_tree_path.rs"],
 [("wildcard enumeration", "wildcard_paths.rs: more_specific_wildcards, path_from_parts, strip_path_affixes"), ("path conversion", "certification_tree_path.rs")], ["HttpCertificationTree::witness", "verify_request_response_pair"])

prop("C19", "A verified response is one the canister certified for this request",
 "With the current protocol version, a response is accepted only if the certificate's data is the root hash of the supplied tree, the expression path matches the request with nothing more specific present in the tree, and the tree holds, at that path, the hash of the response's certification expression with, unless it exempts them, the hashes of this request and this response. Changing the request or the response in a part that the expression certifies makes verification fail.",
 ["inputs"], "all requests, responses, trees, expression paths and certification kinds",
 "Tests verify generated fixtures and a few tampered variants; the property ranges over all combinations of tree content, path and certification kind.",
 ["packages/ic-response-verification/src/validation/v2_validation.rs", "packages/ic-response-verification/src/verification/verify_request_response_pair.rs", "packages/ic-response-verification/src/validation/common_validation.rs"],
 [("expression path validity", "v2_validation.rs: validate_expr_path"), ("hash presence", "v2_validation.rs: validate_expr_hash, validate_hashes"), ("tree/certificate link", "common_validation.rs: validate_tree")], ["verify_request_response_pair"])

prop("C20", "Legacy verification accepts only the certified asset body",
 "With the legacy protocol version, a response is accepted only if the certificate's data is the root hash of the supplied tree and the tree certifies, for the request's path or, only when the path is shown absent, for the index fallback, the hash of the response body or of its decoded form. A changed body, or a fallback served for a path the tree does not show absent, is rejected.",
 ["inputs"], "all requests, bodies, encodings and trees",
 "Tests use fixed assets; absent, unknown and fallback combinations range over all trees.",
 ["packages/ic-response-verification/src/validation/v1_validation.rs", "packages/ic-response-verification/src/validation/common_validation.rs", "packages/ic-response-verification/src/verification/verify_request_response_pair.rs"],
 [("body check", "v1_validation.rs: validate_body"), ("verification flow", "verify_request_response_pair.rs: v1_verification")], ["verify_request_response_pair"])

prop("C21", "A verified response exposes only certified content",
 "The response handed to the caller after a successful verification contains exactly the status, the body and those headers that the certification covers, with the certificate headers removed or kept as documented, and contains nothing when the certification covers nothing.",
 ["inputs"], "all verified responses and certification kinds",
 "Tests compare a few fixtures; every header list and certification kind matters.",
 ["packages/ic-response-verification/src/verification/verify_request_response_pair.rs", "packages/ic-http-certification/src/hash/response_hash.rs"],
 [("construction of the verified response", "verify_request_response_pair.rs: v2_verification; response_hash.rs: filter_response_headers")], ["verify_request_response_pair"])

prop("C22", "The certificate header is read without confusion",
 "Parsing a certificate header yields, for each known field, exactly the decoded value of its first occurrence, ignores unknown fields, and rejects a value that is not a well-formed encoding of its field. No header text makes the parser panic, and a missing certificate, tree, path or version is never replaced by something else.",
 ["inputs"], "all header texts",
 "Tests parse a few fixed headers; duplicates, spacing, separators and encodings are open-ended.",
 ["packages/ic-response-verification/src/verification/certificate_header.rs", "packages/ic-response-verification/src/verification/certificate_header_field.rs"],
 [("field splitting", "certificate_header_field.rs"), ("field decoding", "certificate_header.rs")], ["verify_request_response_pair"])

prop("C23", "A certification is only created for a response that carries its expression",
 "Creating a full or response-only certification succeeds only if the response has exactly one certification expression header and its value is the text of the given expression; otherwise it fails. The stored hashes are those a verifier computes for the same request and response.",
 ["inputs"], "all requests, responses and expressions",
 "Tests check a missing, duplicate and wrong header once each.",
 ["packages/ic-http-certification/src/tree/certification.rs"], [("header validation", "certification.rs: validate_response"), ("creation", "certification.rs: HttpCertification::{full,response_only,skip}")], ["HttpCertification::{full,response_only,skip}"])

prop("C24", "The asset router serves only responses that verify",
 "For a GET request whose path begins with '/' and has no empty inner segments, every response the asset router serves carries a witness that verifies against the router's current root hash for that request. It is the response last configured for exactly that path, be it an asset, an alias or a redirect (in the preferred accepted encoding that is configured, at the requested range), else the closest enclosing fallback. A request that nothing matches, or whose closest responses exist only in encodings or ranges it does not select, is answered with an error.",
 ["histories", "inputs"], "all sequences of certifying and deleting assets, all configurations and requests",
 "Tests use a set of scripted configurations; precedence between overlapping fallbacks, aliases, encodings and ranges depends on the whole configuration history.",
 ["packages/ic-asset-certification/src/asset_router.rs"], [("serving", "asset_router.rs: serve_asset, get_asset_for_request"), ("certification", "asset_router.rs: certify_assets, prepare_*")], ["AssetRouter::{certify_assets,serve_asset,root_hash}"])

prop("C25", "Deleted assets are no longer certified or served",
 "After an asset is deleted with the configuration it was certified with, none of its responses under the paths of that configuration (the asset itself, its aliases, its encodings whose files are given, its ranges, its fallbacks, its redirects) is served or remains provable against the router's root hash, also if it had been certified again with other content before, and the other assets are served as before. Deleting all assets, or everything that was certified, returns the root hash to its initial value.",
 ["histories"], "all sequences of certifying and deleting assets",
 "Tests delete a few assets once; leftovers show only for particular combinations of encodings, chunks, aliases, fallbacks and re-certification.",
 ["packages/ic-asset-certification/src/asset_router.rs"], [("deletion", "asset_router.rs: delete_assets, delete_all_assets, remove_static_responses, remove_fallback_response")], ["AssetRouter::{delete_assets,delete_all_assets,root_hash}"])

prop("C26", "A caller's minimum protocol version is enforced",
 "Verification with a minimum requested protocol version never accepts a response verified by a lower version, treats a missing version as the lowest, rejects versions above the supported maximum, and otherwise verifies by the version the response states.",
 ["inputs"], "all version values and minimum versions",
 "Tests check a few pairs of versions.",
 ["packages/ic-response-verification/src/verification/verify_request_response_pair.rs"], [("version dispatch", "verify_request_response_pair.rs")], ["verify_request_response_pair"])

prop("C27", "Body decoding is faithful",
 "Decoding a response body with a known encoding (gzip or deflate) returns exactly the decoded bytes, however many there are, or fails on malformed data; it terminates and never panics. Bodies without or with unknown encodings are left as they are.",
 ["inputs"], "all bodies and encodings",
 "Tests decode small valid bodies.",
 ["packages/ic-response-verification/src/verification/body.rs"], [("bounded chunked decoding", "body.rs: decode_body, body_from_decoder")], ["verify_request_response_pair"])

prop("C28", "Range responses partition the asset",
 "For every asset larger than the chunk size, the range responses served for successive range requests are partial responses whose content ranges are contiguous, non-overlapping, within the asset and cover it completely, each body being exactly the bytes its content range names. Smaller assets are served whole.",
 ["inputs"], "all asset sizes around and above the chunk size, all range requests",
 "Tests use a few sizes; off-by-one errors at the last chunk depend on the size.",
 ["packages/ic-asset-certification/src/asset_router.rs"], [("chunking", "asset_router.rs: certification of chunks, range header parsing")], ["AssetRouter::serve_asset"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
