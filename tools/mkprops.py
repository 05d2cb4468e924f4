#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
CERT = "packages/ic-certification/src/"
HT = CERT + "hash_tree/mod.rs"
RB = CERT + "rb_tree/mod.rs"
NT = CERT + "nested_rb_tree.rs"
CB = "packages/ic-cbor/src/"
CV = "packages/ic-certificate-verification/src/"
RV = "packages/ic-response-verification/src/"
HC = "packages/ic-http-certification/src/"
AC = "packages/ic-asset-certification/src/"
RI = "packages/ic-representation-independent-hash/src/"

def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Hash tree lookups follow the certification specification",
  "For every well-formed hash tree and every path, looking up a path or a subtree gives exactly what the Internet Computer certification specification says: Found with the value or subtree that is there, Absent only when the visible labels prove that nothing is there, Unknown when pruning hides the answer, Error when the path ends at an inner node, which has no value. Where a fork sits, or an empty node stands, makes no difference.",
  ["inputs"], "all trees (any shape, labels, pruned and empty parts) and all paths",
  "the tests look up a dozen fixed labels in three or four hand-built trees; the answer depends on the interaction of tree shape, label order and pruned parts.",
  [HT], [("lookup_path / lookup_subtree", HT), ("find_label / lookup_label", HT)],
  ["HashTree::lookup_path", "HashTree::lookup_subtree", "HashTreeNode equivalents"])

p("C02", "Pruning never changes the digest nor any answer",
  "Replacing any part of a hash tree by its digest leaves the root digest unchanged, and every lookup on the pruned tree gives either the same answer as on the full tree or Unknown. No part-hidden copy of a tree can therefore prove a value, or an absence, that the full tree does not have.",
  ["inputs"], "all well-formed trees, all choices of hidden parts, all paths",
  "each test prunes a fixed tree at fixed places; soundness is about every combination.",
  [HT, RB], [("digest", HT), ("pruned", HT), ("lookup_label", HT)], ["HashTree::digest", "HashTree::lookup_path"])

p("C03", "The tree digest is the specified domain separated hash and binds all content",
  "The digest of a hash tree is the SHA-256 construction of the specification: every kind of node is hashed with its own length-prefixed domain separator, and children in order. Two trees without hidden parts that have the same digest are the same tree.",
  ["inputs"], "all trees; SHA-256 idealised as collision free",
  "tests compare a few digests with recorded constants; a confusion between two node kinds or an ambiguous concatenation shows only for crafted pairs of trees.",
  [HT, RB], [("fork_hash, leaf_hash, labeled_hash, domain_sep", HT)], ["HashTree::digest", "fork_hash", "leaf_hash", "labeled_hash", "RbTree::root_hash"])

p("C04", "A red-black tree is a sorted map, whatever the history",
  "After any sequence of insertions, deletions and modifications a certified map holds exactly the keys and values an ordinary sorted map would hold. Lookup, iteration in key order, emptiness and equality all reflect that content.",
  ["histories"], "all operation histories over all keys and values",
  "the tests run random or fixed histories; the deletion paths of a left-leaning red-black tree depend on rare colour configurations.",
  [RB], [("insert/delete/modify", RB), ("rotate_left, rotate_right, flip_color, move_red_left, move_red_right, balance", RB)],
  ["RbTree::get", "RbTree::iter", "RbTree::for_each", "RbTree::is_empty"])

p("C05", "The root hash of a red-black tree is always current",
  "After any history the root hash a certified map reports equals the digest of the hash tree it represents, computed from scratch from its present content. No insertion, deletion or in-place modification leaves a stale digest anywhere in the tree, and the tree stays balanced so that witnesses stay logarithmic.",
  ["histories"], "all operation histories over all keys and values, including in-place modification",
  "a stale cached hash in one inner node shows only after particular rotations, and then only in a witness through that node.",
  [RB], [("subtree_hash caching: update/dirty propagation", RB)],
  ["RbTree::root_hash", "RbTree::witness", "RbTree::key_range", "RbTree::value_range"])

p("C06", "Witnesses of a red-black tree prove exactly the requested facts",
  "Every witness a certified map produces (for a key, a key range, a value range, a prefix, or all keys) has the map's root hash as its digest. For every queried key it proves either the key's value (or key) or its absence, never Unknown, and it reveals nothing but what was asked for and the neighbouring keys needed to show absence.",
  ["inputs", "histories"], "all contents reachable by any history; all queried keys, ranges and prefixes, present or absent",
  "the tests check small consecutive keys; the interplay of bounds with tree shape and with keys that are prefixes of one another is combinatorial.",
  [RB], [("witness, range_witness, lower_bound, upper_bound, right_prefix_neighbor", RB), ("KeyBound", RB)],
  ["RbTree::witness", "RbTree::key_range", "RbTree::value_range", "RbTree::keys", "RbTree::keys_with_prefix"])

p("C07", "A nested tree is a map from paths to values",
  "After any sequence of insertions and deletions a nested certified tree holds exactly the paths an ordinary map from paths to values would hold: deleting what was inserted restores the earlier content, and the empty root hash once nothing is left, and a deleted path leaves no empty remains. A witness for any path has the tree's root hash and proves the value, or the absence, of that path.",
  ["histories", "inputs"], "all histories of insertions and deletions of paths, and all witnessed paths",
  "tests insert a few disjoint paths; prefix-related paths and the order of deletions decide which inner maps are removed.",
  [NT], [("NestedTree::insert/delete/get/contains_leaf/contains_path/witness", NT)],
  ["NestedTree::get", "NestedTree::contains_leaf", "NestedTree::contains_path", "NestedTree::root_hash", "NestedTree::witness"])

p("C08", "Merging two witnesses loses nothing",
  "Merging two partly hidden copies of one tree yields a tree with the same digest, in which every lookup that either of the two copies could answer has that answer. Merging never crashes on copies of one tree.",
  ["inputs"], "all trees and all pairs of pruned copies of them",
  "the tests merge witnesses of fixed shape; which of the two sides hides what, at every level, is a product space.",
  [NT], [("merge_hash_trees", NT)], ["merge_hash_trees"])

p("C09", "What is encoded is decoded unchanged",
  "Encoding a hash tree or a certificate (with or without delegation) as CBOR and decoding it, with either of the two decoders in this repository, gives back an equal value, whatever the labels, leaf contents, hidden parts, sizes and shapes are.",
  ["inputs"], "all trees and certificates, including length fields of every CBOR header width",
  "round-trips are tested for a few fixed trees; length boundaries (23/24, 255/256, 65535/65536) and empty strings are not.",
  [HT, CERT + "certificate.rs", CB + "cbor_parser.rs", CB + "cbor_parse_certificate.rs", CB + "cbor_parse_hash_tree.rs"],
  [("serde Serialize/Deserialize", HT), ("parse_cbor", CB + "cbor_parser.rs"), ("CertificateToCbor/HashTreeToCbor", CB)],
  ["HashTree serde", "Certificate serde", "Certificate::from_cbor", "HashTree::from_cbor"])

p("C10", "Decoding untrusted CBOR never crashes",
  "For every byte string, decoding it as CBOR, as a hash tree, as a certificate, as a list of principals or as a list of strings ends with a value or an error. It never panics, aborts, or asks for memory out of proportion to the input.",
  ["inputs"], "all byte strings",
  "tests feed well-formed encodings; crashes sit behind malformed headers, lengths and element counts.",
  [CB + "cbor_parser.rs", CB + "cbor_parse_certificate.rs", CB + "cbor_parse_hash_tree.rs", CB + "error.rs", CERT + "hash_tree/mod.rs"],
  [("parse_cbor", CB + "cbor_parser.rs"), ("parsed_cbor_to_tree", CB + "cbor_parse_hash_tree.rs"), ("parse_cbor_principals_array", CB)],
  ["parse_cbor", "HashTree::from_cbor", "Certificate::from_cbor", "parse_cbor_principals_array", "parse_cbor_string_array"])

p("C11", "CBOR values are decoded as RFC 8949 says",
  "Whenever the CBOR decoder accepts a definite-length item, the value it returns is the one RFC 8949 assigns to those bytes: integers of every width and sign, byte and text strings (both as bytes), arrays, maps and tags (floats and simple values are skipped by design). A tree decoded from bytes is the tree these bytes denote, and bytes that denote no tree are rejected.",
  ["inputs"], "all byte strings the decoder accepts",
  "tests use a handful of encodings; each header width and sign combination is a separate case.",
  [CB + "cbor_parser.rs", CB + "error.rs", CB + "cbor_parse_hash_tree.rs"],
  [("parse_cbor", CB + "cbor_parser.rs"), ("CborUnsignedInt, CborSignedInt", CB + "error.rs")],
  ["parse_cbor", "HashTree::from_cbor"])

p("C12", "Certificates are accepted only within the time window",
  "A certificate is accepted only if its time lies within the allowed offset before or after the current time, both ends included, and a correctly signed certificate within the window is not rejected for its time. This holds for every certificate time, current time and offset, without crash or wrap-around.",
  ["inputs"], "all 64-bit certificate times, 128-bit current times and offsets",
  "the tests of this code need a replica-built certificate and sample one offset.",
  [CV + "certificate_verification.rs"], [("verify_certificate_time", CV + "certificate_verification.rs")],
  ["VerifyCertificate::verify"])

p("C13", "A certificate is accepted only under the right signature and delegation",
  "A certificate is accepted only if the root key, or the key a root-signed delegation certificate attests for its subnet, signed exactly this certificate's tree digest under the state root domain separator, the delegation carries no delegation of its own, and the attested key is a well-formed BLS key. A certificate that meets all of this is accepted.",
  ["inputs"], "all certificates, delegations, keys and outcomes of signature verification (BLS idealised as an oracle)",
  "these tests cannot run here, and each condition is one branch that a test would need a forged certificate to reach.",
  [CV + "certificate_verification.rs"], [("verify_certificate_signature, verify_delegation, extract_der", CV + "certificate_verification.rs")],
  ["VerifyCertificate::verify"])

p("C14", "A delegated certificate speaks only for canisters in the subnet's ranges",
  "A certificate with a delegation is accepted for a canister only if the delegation certificate contains, for that very subnet, canister ranges one of which includes the canister id, ends included and ordered as principals are. Malformed or missing ranges mean rejection, never a crash.",
  ["inputs"], "all canister ids, range lists and malformed range encodings",
  "no test exercises ranges at their ends, several ranges, or ids of different length.",
  [CV + "certificate_verification.rs", CB + "cbor_parser.rs"], [("verify_delegation / principal_is_within_ranges", CV + "certificate_verification.rs")],
  ["VerifyCertificate::verify"])

p("C15", "The signature cache never changes a verdict",
  "Verifying a certificate gives the same verdict whatever certificates were verified before it. A cached success is only ever used for the identical key, signature and message, and failures are never cached as successes.",
  ["histories", "inputs"], "all sequences of verifications",
  "the cache is process-wide state that no test inspects; a wrong cache key shows only for a crafted second certificate.",
  [CV + "certificate_verification.rs", CV + "signature_verification/signature_cache.rs"], [("SignatureCache", CV)],
  ["VerifyCertificate::verify"])

p("C16", "Protocol version rules are enforced",
  "A response is judged by the certificate version its certificate header states, version 1 when it states none. A version below the caller's minimum, an unknown version, or a missing certificate header is rejected, whatever the rest of the response looks like.",
  ["inputs"], "all header sets, versions and minimum versions",
  "a test per version; not the interplay of minimum, stated version and malformed headers.",
  [RV + "verification/verify_request_response_pair.rs", RV + "verification/certificate_header.rs"],
  [("verify_request_response_pair", RV)], ["verify_request_response_pair"])

p("C17", "A response is accepted only if the certificate covers its tree",
  "A response is accepted only if the certified data the certificate holds for the given canister equals the root digest of the response's tree. A certificate for another canister, a different tree, or missing certified data means rejection.",
  ["inputs"], "all trees, certificates and canister ids",
  "the relevant tests are switched off offline and check one good and one bad tree.",
  [RV + "validation/common_validation.rs"], [("validate_tree", RV + "validation/common_validation.rs")],
  ["verify_request_response_pair"])

p("C18", "An accepted response is the one that was certified",
  "If a version 2 response is accepted as certified, then the tree certifies, at a path valid for the requested URL, exactly this CEL expression with exactly this request's hash (when the request is certified) and exactly this response's hash: any difference in status code, body, certified headers, method, certified query parameters or certified request headers leads to rejection. Skipping certification is accepted only where the tree says so.",
  ["inputs"], "all requests, responses, trees and expressions",
  "tests alter one field of a fixed fixture at a time.",
  [RV + "validation/v2_validation.rs", RV + "verification/verify_request_response_pair.rs", HC + "hash/request_hash.rs", HC + "hash/response_hash.rs"],
  [("validate_hashes, validate_expr_hash, validate_expr_path", RV + "validation/v2_validation.rs")],
  ["verify_request_response_pair"])

p("C19", "Only the most specific certified path counts",
  "A version 2 response is accepted under an expression path only if the path is the exact path of the requested URL or a wildcard covering it, the tree certifies it, and the tree proves that no more specific path for this URL is certified. An exact path is never accepted for another URL, and a wildcard only for URLs whose decoded path segments begin with its own (a wildcard of a directory, with a slash at its end, does not cover the file of the same name).",
  ["inputs"], "all URLs, expression paths and trees, with or without hidden parts",
  "tests fix one URL with two or three nested paths; which parts are pruned or absent is a product space.",
  [RV + "validation/v2_validation.rs", HC + "utils/wildcard_paths.rs"],
  [("validate_expr_path", RV), ("more_specific_wildcards_for, is_wildcard_path_valid_for_request_path", HC + "utils/wildcard_paths.rs")],
  ["verify_request_response_pair"])

p("C20", "The verified response exposes nothing uncertified",
  "The response handed to the caller after successful verification carries the original status code and body and only headers the certification covers: with full header exclusion lists the listed ones are left out, with inclusion lists only the listed ones stay, names compared without regard to case, and repeated headers are kept. When certification is skipped nothing is presented as certified.",
  ["inputs"], "all header sets and certified/excluded header lists",
  "tests use fixed header sets without duplicates or case variants.",
  [HC + "hash/response_hash.rs", RV + "verification/verify_request_response_pair.rs"],
  [("filter_response_headers", HC + "hash/response_hash.rs")],
  ["verify_request_response_pair", "filter_response_headers"])

p("C21", "Version 1 responses are accepted only with a certified body",
  "A version 1 response is accepted only if the tree certifies, for the requested path (or for /index.html where the tree proves that path absent), the hash of the response body, either as sent or decoded according to its content encoding. Any other body, path or a tree that hides the path leads to rejection.",
  ["inputs"], "all trees, request paths and bodies",
  "tests cover a fixed asset; absence versus hidden path decides whether the fallback applies.",
  [RV + "validation/v1_validation.rs", RV + "verification/verify_request_response_pair.rs", RV + "verification/body.rs"],
  [("validate_body", RV + "validation/v1_validation.rs")], ["verify_request_response_pair"])

p("C22", "Certificate header parsing is total and unambiguous",
  "For every header text, reading the certificate header ends without crash, fields it does not know are ignored, a field that occurs twice keeps its first value, and the certificate, tree, path and version read are those written. Text that lacks a field, or holds one that is not valid base64, never counts as that field.",
  ["inputs"], "all header texts",
  "tests parse well-formed headers.",
  [RV + "verification/certificate_header.rs", RV + "verification/certificate_header_field.rs"],
  [("CertificateHeader::from, CertificateHeaderField::from", RV + "verification")], ["verify_request_response_pair"])

p("C23", "Parsing a CEL expression never crashes and never misreads",
  "For every text in the expression header of a response, verification ends with a verdict and never crashes. Text that is not a certification expression is rejected, and a text that is accepted means what it says: no certification, response-only or full certification with exactly the listed headers and parameters. (What repeated or unknown properties or escapes mean is left open; they may be accepted or rejected, but not crash.)",
  ["inputs"], "all expression texts",
  "tests parse a dozen well-formed expressions and a few errors.",
  [RV + "cel/parser.rs", RV + "cel/ast_mapping.rs"], [("parse_cel_expression, map_cel_ast", RV + "cel")],
  ["verify_request_response_pair", "parse_cel_expression, where public"])

p("C24", "CEL expressions written by the server are read back by the verifier",
  "The expression text produced for any certification definition (skip, response-only, full; any header and parameter names usable in HTTP) is parsed by the verifier into the same definition. Header order is kept and no name can alter the meaning of the expression.",
  ["inputs"], "all definitions and all names",
  "tests on both sides use the same few hand-written strings.",
  [HC + "cel/create_cel_expr.rs", HC + "cel/cel_types.rs", RV + "cel/parser.rs", RV + "cel/ast_mapping.rs"], [("create_cel_expr", HC + "cel"), ("parse_cel_expression", RV + "cel/parser.rs")],
  ["create_cel_expr", "verify_request_response_pair"])

p("C25", "The request hash binds exactly the certified parts of the request",
  "Two requests have the same request hash under an expression exactly when they agree on method, body, and the certified headers and query parameters (names of headers compared without regard to case, values and repetitions included). Whether the request has a query at all counts too. Uncertified headers, uncertified query parameters and the order of certified headers never matter.",
  ["inputs"], "all pairs of requests and lists of certified names",
  "tests compare a few variations with recorded hashes.",
  [HC + "hash/request_hash.rs"], [("request_hash, get_filtered_headers, get_filtered_query", HC + "hash/request_hash.rs")],
  ["request_hash"])

p("C26", "The response hash binds status, body and certified headers",
  "Two responses have the same response hash under an expression exactly when they agree on status code, body, certification expression header, and the headers the expression certifies. The certificate header never enters the hash, the expression header always does, and order and letter case of header names do not matter.",
  ["inputs"], "all pairs of responses and certified or excluded header lists",
  "tests compare a few variations with recorded hashes.",
  [HC + "hash/response_hash.rs"], [("response_hash, filter_response_headers, response_headers_hash", HC + "hash/response_hash.rs")],
  ["response_hash", "response_headers_hash", "filter_response_headers"])

p("C27", "The representation independent hash is a function of the key-value content",
  "The representation independent hash of a list of key-value pairs does not depend on their order and differs for lists with different content, where a number counts as its LEB128 bytes, a text as its bytes and an empty array as the empty text. Numbers, strings, byte strings and arrays are hashed as the interface specification says, numbers in unsigned LEB128.",
  ["inputs"], "all lists of pairs, all 64-bit numbers",
  "tests take the examples of the specification.",
  [RI + "representation_independent_hash.rs"], [("representation_independent_hash, hash", RI)], ["representation_independent_hash", "hash"])

p("C28", "Any certified response can be proven and verified",
  "For every set of certifications in an HTTP certification tree and every request URL a certified path covers, the witness the tree produces has the tree's root hash, proves the certified entry, and proves that no more specific path is certified; together with the expression path it gives, a verifier accepts it. A witness for an entry that is not in the tree never proves it.",
  ["histories", "inputs"], "all histories of insertions and deletions, all paths and request URLs",
  "tests use a few fixed paths; special segments, trailing slashes and nested wildcards interact.",
  [HC + "tree/certification_tree.rs", HC + "tree/certification_tree_path.rs", HC + "utils/wildcard_paths.rs"],
  [("HttpCertificationTree::witness", HC), ("HttpCertificationPath::to_tree_path/to_expr_path", HC)],
  ["HttpCertificationTree::witness", "verify_request_response_pair"])

p("C29", "Deleting a certification undoes inserting it",
  "Inserting a certification into an HTTP certification tree and deleting it again restores the certified content from before: what was certified before still is, what was deleted is not, and when nothing is left the root hash is that of a new tree. Deleting or clearing removes nothing else, and inserting the same certification twice is the same as once. After clearing, the tree has the empty root hash.",
  ["histories"], "all histories of insertions, deletions and clearing",
  "tests delete one of a few entries once.",
  [HC + "tree/certification_tree.rs", NT], [("insert, delete, clear", HC + "tree/certification_tree.rs")],
  ["HttpCertificationTree::root_hash"])

p("C30", "A certification is only created for a response that carries its expression",
  "Creating a response-only or full certification succeeds exactly when the response carries exactly one expression header and its value is the text of the given expression. A created certification always carries the hashes of this request and this response.",
  ["inputs"], "all responses, header sets and expressions",
  "tests cover missing, wrong and duplicate header once each.",
  [HC + "tree/certification.rs"], [("validate_response, HttpCertification::full/response_only/skip", HC)],
  ["HttpCertification::full", "HttpCertification::response_only"])

p("C31", "Served assets verify and have the certified content",
  "For every set of certified assets and every GET request, the response an asset router serves carries the content, status code and headers of the asset, alias, redirect or fallback that the configuration assigns to that path, with a certificate header whose witness matches the router's root hash and whose verification succeeds. A path nothing covers gives an error, not a response.",
  ["inputs", "configurations"], "all asset paths, configurations and request paths",
  "tests request a few fixed paths of one asset set.",
  [AC + "asset_router.rs", AC + "asset_map.rs", AC + "asset_config.rs"],
  [("AssetRouter::serve_asset, certify_assets", AC + "asset_router.rs")], ["AssetRouter::serve_asset", "AssetRouter::root_hash"])

p("C32", "Content encodings are negotiated among those certified",
  "The encoding of a served asset is one the client's Accept-Encoding allows and that was certified, preferring the configured order, and the unencoded asset otherwise; the body served is the one certified for that encoding.",
  ["inputs", "configurations"], "all Accept-Encoding texts and all sets of available encodings",
  "tests use a few header texts.",
  [AC + "asset_router.rs"], [("serve_asset / prioritized_encodings", AC)], ["AssetRouter::serve_asset"])

p("C33", "Range requests reassemble to the asset",
  "A large asset is served in certified ranges: the partial responses obtained by following the ranges from the start reassemble to exactly the certified content with the right total length, and a range request outside the asset or malformed is refused without crash. Small assets are served whole.",
  ["inputs", "configurations"], "all range header texts and asset sizes",
  "tests use a few ranges of one asset.",
  [AC + "asset_router.rs"], [("parse_range_header_str, chunking by ASSET_CHUNK_SIZE", AC + "asset_router.rs")],
  ["AssetRouter::serve_asset"])

p("C34", "Deleting assets undoes certifying them",
  "Deleting assets with the configuration they were certified with makes them unavailable and withdraws every certification made for them, whichever encodings, aliases, fallbacks, redirects and ranges they had, and leaves other assets served as before; when nothing is left the root hash is that of a new router. Deleting what is not there changes nothing.",
  ["histories", "configurations"], "all histories of certifying and deleting assets",
  "tests delete assets of one fixed set, without ranges or shared fallbacks.",
  [AC + "asset_router.rs"], [("delete_assets, delete_all_assets", AC + "asset_router.rs")],
  ["AssetRouter::root_hash", "AssetRouter::get_assets", "AssetRouter::serve_asset"])

p("C35", "An honest response is accepted by the verifier",
  "Whatever a server certifies with this repository's certification side (skip, response-only or full, exact or wildcard path, any headers, query, method, status and body) is accepted by the verification side under a validly signed, timely certificate for the canister, with the certified headers returned. Server and client side agree on every hash, path and encoding.",
  ["inputs", "configurations"], "all requests, responses, expressions and certification paths",
  "end-to-end tests need the replica-built certificates and cannot run here; they cover a few fixtures.",
  [HC + "utils/response_header.rs", HC + "tree/certification_tree.rs", RV + "verification/verify_request_response_pair.rs", CB + "cbor_parser.rs"], [("add_v2_certificate_header", HC + "utils"), ("verify_request_response_pair", RV)],
  ["verify_request_response_pair"])

p("C36", "BLS signature verification and SHA-256 are correct",
  "The signature check accepts exactly the valid BLS12-381 signatures, and the hash function is SHA-256 and collision resistant.",
  ["inputs"], "all keys, signatures, messages",
  "cryptographic strength is not a matter of test cases.",
  [CV + "certificate_verification.rs"], [("miracl_core_bls12381, sha2 (external crates)", "Cargo.toml")], ["VerifyCertificate::verify"])

p("C37", "Compressed bodies are judged by exactly what they decode to",
  "When a version 1 response states the content encoding gzip or deflate, its body is accepted under the certified hash of exactly the data the stream decodes to by RFC 1951 and RFC 1952, whatever its length and block structure, and never under that of a part of the data or more than it. A stream that is cut off, corrupt or fails its checksum is never accepted as decoded. Under any other stated encoding (identity, br, unknown ones) the body is judged as it was sent.",
  ["inputs"], "all deflate streams: stored, fixed and dynamic blocks, copies over the ends of read buffer and window, changed and cut off streams; all gzip headers and trailers; all other encodings",
  "tests decompress two fixed bodies of eight bytes.",
  [RV + "verification/body.rs"], [("decode_body", RV + "verification/body.rs")], ["verify_request_response_pair"])

p("C38", "The JavaScript binding verifies what the Rust library verifies",
  "Calling the verification through the JavaScript package gives the same verdict as the Rust function for the same request, response and parameters, whatever the order of the objects' properties, and whether bodies are Uint8Arrays or arrays of numbers. An accepted response is shown to JavaScript with the same version, status code (or none), headers and body, a rejection carries the code and the message of its reason.",
  ["inputs"], "all well-formed JavaScript request and response objects and parameters",
  "tests pass a few objects.",
  ["packages/ic-response-verification-wasm/src/lib.rs", "packages/ic-response-verification-wasm/src/request.rs", "packages/ic-response-verification-wasm/src/response.rs", RV + "types/verification_result.rs", RV + "types/verified_response.rs", RV + "error.rs"],
  [("request_from_js", "packages/ic-response-verification-wasm/src/request.rs"), ("response_from_js", "packages/ic-response-verification-wasm/src/response.rs"), ("From<VerifiedResponse> for JsValue", RV + "types/verified_response.rs"), ("From<ResponseVerificationError> for ResponseVerificationJsError", RV + "error.rs")],
  ["verifyRequestResponsePair"])

p("C40", "HTTP messages keep their content through Candid, builders and conversions",
  "An HTTP request or response, of a query or an update call, encoded in Candid and decoded again has the same method, URL, headers (order and repetitions included), body, certificate version, status code and upgrade flag, and its Candid form is that of the plain record of the gateway interface, in both directions. A record with a method or status code that HTTP does not know is rejected, never a crash. Building a message and converting it to one of an update call change nothing. The path of a request is its URL's path, percent-decoded, and the query its URL's, without origin and fragment.",
  ["inputs", "histories"], "all requests and responses; all byte strings near their Candid forms; all URLs",
  "tests build a few messages and never encode one.",
  [HC + "http/http_request.rs", HC + "http/http_response.rs"],
  [("CandidType and Deserialize of HttpRequest, get_path, get_query", HC + "http/http_request.rs"), ("CandidType and Deserialize of HttpResponse", HC + "http/http_response.rs")],
  ["candid::encode_one", "candid::decode_one", "HttpRequest::get_path", "HttpRequest::get_query"])

TS = "packages/certificate-verification-js/src/"
p("C39", "The TypeScript package accepts only certified trees of fresh certificates",
  "verifyCertification resolves exactly if the certificate is valid for this root key and canister, the tree decodes, the certificate's time, in whole milliseconds, is no further from the clock at the time of the call than the given offset, and the data the certificate holds for this canister is the root hash of this tree; it resolves with this tree. Otherwise it rejects. Calls made before or at the same time make no difference.",
  ["inputs", "schedules", "histories"], "all times, offsets, certified data, root hashes and outcomes of the certificate's own checks; calls one after the other or interleaved",
  "the tests use a few certificates with one offset, and cannot run without the network.",
  [TS + "index.ts"], [("verifyCertification, validateCertificateTime, validateTree", TS + "index.ts")],
  ["verifyCertification"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            for a in x["anchors"]["files"]:
                assert os.path.isfile("/repo/" + a), (x["id"], a)
            for a in x["anchors"]["mechanism"]:
                assert os.path.exists("/repo/" + a["where"]) or a["where"] == "Cargo.toml", (x["id"], a)
            f.write(json.dumps(x) + "\n")
    print(len(P))
