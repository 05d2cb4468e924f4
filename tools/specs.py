"""The harnesses that decide each property, with their bounds."""
TRUSTED = [
    "rustc 1.78.0's wasm32 code generation (the code is decided as compiled for the deployment target: opt-level 2, overflow checks and debug assertions on)",
    "the symbolic executor engine/ and Z3 4.8.12; every satisfying model is re-evaluated by the executor's own evaluator",
    "SHA-256 is ideal: equal inputs have equal digests, different inputs different ones",
    "hash maps: std's SipHash is taken as an arbitrary fixed hash function; memory blocks are never reused",
]
Q, T = ("quick",), ("thorough",)


def h(name, bounds, **k):
    return dict(name=name, bounds=bounds, **k)


SPECS = {}


def spec(pid, features, harnesses, outside, **k):
    SPECS[pid] = dict(features=features, harnesses=harnesses, outside=outside, **k)


spec("C01", "tree", [
    h("c01_small", "all well-formed trees of up to 9 nodes (any shape; 1-byte labels and values, 32-byte pruned digests symbolic), all paths of 0 or 1 one-byte segments", covers=["found", "absent", "unknown", "error"]),
    h("c01_labels", "all trees of up to 6 nodes with labels of 0 to 2 symbolic bytes, one path segment of 0 to 2 bytes", covers=["found", "absent", "unknown"]),
    h("c01_path2", "all trees of up to 8 nodes, all paths of 2 one-byte segments", covers=["found", "absent", "unknown"]),
    h("c01_big", "trees of 4 and 10 labels of one and two bytes with labels below them, in 4 shapes, any one node hidden; paths of 1 and 2 segments of up to 2 bytes", covers=["found", "absent", "unknown"]),
    h("c01_deep", "chains of 20 and 150 labels with other labels and hidden nodes beside them; one segment of the path arbitrary, one more or less", covers=["found", "absent", "unknown"]),
    h("c01_wide", "trees of 90 labels, some of 301 bytes, one with 60 levels below it, balanced or a chain, one node hidden or none; paths to and around its ends."),
    h("c01_long", "trees of up to 5 nodes whose labels begin with the same 3 to 255 bytes and go on with 0 to 2 symbolic ones; a segment that begins so, too, or is shorter, or differs at its start", covers=["found", "absent", "unknown", "error"]),
    h("c01_thorough", "all trees of up to 10 nodes, all paths of 0 to 3 one-byte segments", tiers=T),
], "larger trees, longer labels; trees that are not well-formed")
spec("C02", "tree", [
    h("c02_small", "all well-formed trees of up to 8 nodes, every set of hidden nodes, paths of 0 to 2 segments", covers=["hidden", "same value", "same absence"]),
    h("c02_big", "the same trees of 4 and 10 labels, any one or two nodes hidden, paths of 1 or 2 segments", covers=["hidden", "same value", "same absence"]),
    h("c02_long", "trees of up to 5 nodes with labels of 3 to 66 bytes that begin alike, every set of hidden nodes", covers=["hidden", "same value", "same absence"]),
    h("c02_wide", "the same trees with two parts hidden."),
    h("c02_thorough", "the same with up to 10 nodes", tiers=T),
], "larger trees")
spec("C03", "tree", [
    h("c03_spec", "all trees of up to 6 nodes, labels and values of 0 to 2 bytes: digest equals the specification's"),
    h("c03_inject", "all pairs of trees without hidden parts of up to 4 nodes each, labels and values of 0 to 2 bytes", covers=["same digest"]),
    h("c03_leaf_fork", "leaf contents of up to 82 symbolic bytes against other kinds of nodes"),
    h("c03_long", "labels of up to 256 and values of up to 70000 bytes with an arbitrary first or last byte, nesting of up to 300, trees of up to 30 labels"),
    h("c03_spec_t", "all trees of up to 7 nodes", tiers=T),
    h("c03_inject_t", "all pairs of trees of up to 5 nodes each", tiers=T),
], "larger trees; collisions of SHA-256 itself")

NOTE_RB = "longer histories, more or longer keys; ranges whose first key is above the last (a documented precondition: debug_assert)"
spec("C04", "tree", [
    h("c04_hist", "every history of 4 operations (insert, delete, modify) with symbolic one-byte keys, from an empty map; every one-byte key looked up", covers=["insert", "delete", "modify"]),
    h("c04_big", "maps of 3, 6, 8 and 13 concrete keys built in 4 orders, then 2 arbitrary operations with arbitrary one-byte keys", covers=["insert", "delete", "modify"]),
    h("c04_eq", "equality, order and collecting of all pairs of maps collected from up to 3 entries of symbolic keys", covers=["equal"]),
    h("c04_len", "every history of 3 operations with symbolic keys of 0 to 2 bytes", covers=["insert", "delete", "modify"]),
    h("c04_long", "maps of up to 3 keys of 7 to 66 bytes that begin alike, one arbitrary operation", covers=["insert", "delete", "modify"]),
    h("c04_wide", "maps of 100 keys, some of 301 bytes, in 2 orders, then an operation with a key of the map or next to it (one arbitrary byte)."),
    h("c04_hist_t", "histories of 5 operations", tiers=T),
    h("c04_big_t", "maps of 4, 7, 10 and 17 keys in 6 orders, then 3 arbitrary operations", tiers=T),
], NOTE_RB)
spec("C05", "tree", [
    h("c05_hist", "every history of 4 operations with symbolic keys: after each the root hash, at the end every hash and the balance", covers=["insert", "delete", "modify"]),
    h("c05_len", "every history of 3 operations with symbolic keys of 0 to 2 bytes", covers=["insert", "delete", "modify"]),
    h("c05_long", "the same with keys of 3 to 257 bytes", covers=["insert", "delete", "modify"]),
    h("c05_kinds", "up to 4 entries whose values are digests, maps, or of 33 to 5000 bytes: hashes, witnesses and modification"),
    h("c05_big", "maps of 3, 6, 8 and 13 concrete keys built in 4 orders, then 2 arbitrary operations", covers=["insert", "delete", "modify"]),
    h("c05_del", "maps of 5, 7 and 10 keys in 4 orders, any 3 or 4 of them deleted in any order"),
    h("c05_balance", "maps of 31 and 60 keys, one half deleted, then an arbitrary operation"),
    h("c05_wide", "maps of 100 keys, some of 301 bytes, in 2 orders, then two operations."),
    h("c05_hist_t", "histories of 5 operations", tiers=T),
    h("c05_big_t", "maps of 4, 7, 10 and 17 keys in 6 orders, then 3 arbitrary operations", tiers=T),
], NOTE_RB)
spec("C06", "tree", [
    h("c06_sym", "every map of up to 4 symbolic one-byte keys (one perhaps deleted again): witness, nested_witness and keys, for every key", covers=["present", "absent"]),
    h("c06_big", "maps of 7, 12 and 20 concrete keys in 5 orders, one operation or deletion, an arbitrary key", covers=["present", "absent"]),
    h("c06_range", "maps of up to 3 symbolic one-byte keys, every key range and value range, every key queried", covers=["inside", "absent inside"]),
    h("c06_range_big", "maps of 7 and 12 concrete keys in 4 orders, every range of one-byte ends", covers=["inside", "absent inside"]),
    h("c06_range_len", "maps of 1 to 2 symbolic keys of 0 to 2 bytes, range ends and queried keys of 0 to 2 bytes", covers=["inside", "absent inside"]),
    h("c06_long", "maps of up to 2 keys of 8 to 10 bytes that begin alike: one key, ranges and prefixes", covers=["present", "absent", "inside", "has prefix"]),
    h("c06_wide", "maps of 100 keys, some of 301 bytes, in 2 orders: keys, ranges and prefixes at both ends and in the middle.", covers=["present", "absent", "inside", "has prefix"]),
    h("c06_range_nested", "a map of 6 keys of one and two bytes in 3 orders, every range with ends of 0 to 2 bytes", covers=["inside", "absent inside"]),
    h("c06_prefix", "maps of up to 2 symbolic keys of 0 to 2 bytes, prefixes and queried keys of 0 to 2 bytes", covers=["has prefix", "absent with prefix"]),
    h("c06_nested", "maps of 9 and 16 keys of one and two bytes in 3 orders, all prefixes of 0 to 2 bytes", covers=["has prefix", "absent with prefix"]),
    h("c06_sym_t", "5 symbolic keys", tiers=T),
    h("c06_range_t", "4 symbolic keys of 0 or 1 bytes", tiers=T),
    h("c06_prefix_t", "3 symbolic keys of up to 3 bytes", tiers=T),
], NOTE_RB)
spec("C07", "tree", [
    h("c07_hist", "every history of 3 insertions and deletions of paths of 1 or 2 symbolic segments, every path of 0 to 2 segments queried"),
    h("c07_one", "any path of 1 to 3 segments inserted into and deleted from trees of 0, 1, 3 and 12 paths, then clearing", covers=["empty", "undone"]),
    h("c07_wit", "witnesses of every path of up to 3 segments, in trees after any history of 3 operations and in trees of 5, 15 and 24 paths", covers=["present", "absent", "subtree"]),
    h("c07_len", "two paths of 1 or 2 segments of 0 to 2 symbolic bytes inserted, the first perhaps deleted; a third one queried", covers=["present", "absent", "subtree"]),
    h("c07_long", "two paths of 1 or 2 segments of 8 to 33 bytes that begin alike; any such path deleted, another one queried", covers=["present", "absent", "subtree"]),
    h("c07_deep", "trees with paths of up to 6 segments that share their beginnings, an arbitrary one of them inserted, deleted and queried", covers=["present", "absent", "subtree"]),
    h("c07_far", "paths of 9 and 32 segments of up to 301 bytes, changed, cut off or longer at three places, among 15 others."),
    h("c07_hist_t", "histories of 4 operations with paths of 0 to 2 segments", tiers=T),
    h("c07_wit_t", "histories of 4 operations", tiers=T),
], "longer histories and deeper paths; paths of which one is a prefix of another are the caller's choice: inserting through a leaf replaces it, as documented in the harness's model")
spec("C08", "tree", [
    h("c08_copies", "all trees of up to 6 nodes, every pair of sets of hidden nodes, paths of 0 or 1 segments", covers=["absence kept", "value kept", "open"]),
    h("c08_nested", "two witnesses of any paths of 1 or 2 segments in nested trees (histories of 2 operations; 5 and 15 paths), merged"),
    h("c08_big", "trees of 4 and 10 labels in 4 shapes, any one or two nodes hidden in each of two copies, paths of 1 or 2 segments", covers=["absence kept", "value kept", "open"]),
    h("c08_wide", "trees of 90 labels, some of 301 bytes, one with 60 levels below it; three parts hidden."),
    h("c08_copies_t", "trees of up to 8 nodes, paths of up to 2 segments", tiers=T),
], "larger trees; merging copies of different trees")
spec("C09", "cbor", [
    h("c09_tree", "all trees of up to 6 nodes with symbolic labels and values of 0 to 2 bytes, with and without tag", covers=["tagged"]),
    h("c09_lengths", "leaf contents and labels of 0, 1, 22..25, 31..33, 254..257, 300, 65534..65537 bytes"),
    h("c09_cert", "certificates with trees of up to 3 nodes, signatures of up to 256 bytes, delegations with certificates of up to 65536 bytes", covers=["delegation"]),
    h("c09_deep", "chains of 10, 60 and 120 nested nodes"),
    h("c09_ref", "what is encoded is the specification's encoding, and the specification's encoding is read, with owned and borrowed storage"),
    h("c09_tree_t", "trees of up to 8 nodes", tiers=T),
    h("c09_cert_t", "certificates with trees of up to 6 nodes", tiers=T),
], "larger trees; nesting beyond the decoders' depth limits")
spec("C10", "cbor", [
    h("c10_bytes", "every byte string of up to 5 bytes, with all decoders", covers=["value", "tree"]),
    h("c10_heads", "one head of 1, 2, 4 or 8 length bytes, all symbolic, then up to 2 arbitrary bytes, alone or in an array", covers=["value"]),
    h("c10_mutated", "six sample encodings (tree, certificates, delegation, ranges, strings, mixed) with any 2 neighbouring bytes replaced by any others", covers=["value", "tree"]),
    h("c10_deep", "up to 20000 nested arrays, tags, maps and forks, then anything", covers=["value"]),
    h("c10_lists", "lists of 0 to 2 lists of 1 to 3 byte strings of 0 to 64 symbolic bytes"),
    h("c10_strings", "lists of one string of up to 3 symbolic bytes"),
    h("c10_bytes_t", "every byte string of 7 bytes", tiers=T),
    h("c10_heads_t", "heads followed by up to 4 bytes", tiers=T),
    h("c10_mutated_t", "three replaced bytes", tiers=T),
], "byte strings that are neither short nor within a few bytes of the samples")
spec("C11", "cbor", [
    h("c11_bytes", "every byte string of up to 4 bytes against a reference decoder written after RFC 8949", covers=["accepted", "tree"]),
    h("c11_heads", "heads of every width with symbolic content, then up to 2 arbitrary bytes", covers=["accepted"]),
    h("c11_tree", "encoded trees with any 2 neighbouring bytes replaced", covers=["accepted", "tree"]),
    h("c11_cert", "encoded certificates with any byte replaced", covers=["certificate"]),
    h("c11_lists", "encoded canister ranges, string lists and mixed values with any 2 neighbouring bytes replaced", covers=["ranges", "strings", "accepted"]),
    h("c11_ranges", "ranges of principals of 0 to 29 bytes"),
    h("c11_bytes_t", "every byte string of 5 bytes", tiers=T),
    h("c11_heads_t", "heads followed by up to 3 bytes", tiers=T),
    h("c11_tree_t", "three replaced bytes", tiers=T),
    h("c11_cert_t", "two replaced bytes", tiers=T),
], "indefinite lengths, floats and simple values (skipped by design); text strings are byte strings to this decoder; a delegation that is no map is read as none")

BLS = ["BLS signature verification is an oracle: exactly the (signature, message, key) triples the harness declares signed are valid"]
spec("C12", "cv", [
    h("c12_window", "every 64-bit certificate time in its shortest LEB128 encoding, every 128-bit current time and every 128-bit offset", covers=["accepted", "rejected"]),
    h("c12_leb", "every time encoding of up to 4 arbitrary bytes, 64-bit current times, 32-bit offsets", covers=["accepted", "rejected"]),
    h("c12_tree", "eight shapes of state trees (time present, missing, hidden, below another label, similar labels), with and without delegation (with a time of its own)", covers=["time", "no time"]),
    h("c12_large", "state trees of 31 and 101 labels, one hidden or none; times, clocks and offsets of 8 bits.", covers=["time", "no time"]),
    h("c12_leb_t", "every time encoding of up to 12 arbitrary bytes", tiers=T),
], "certificate times above 64 bits need not be accepted; bytes after the LEB128 number are not judged", assumptions=BLS)
spec("C13", "cv", [
    h("c13_plain", "symbolic key, signature (0 to 2 bytes) and content against a symbolic signed triple with the right domain separator or one of four close ones", covers=["accepted", "rejected"]),
    h("c13_der", "root and subnet keys with any one prefix byte replaced, truncated or extended", covers=["accepted", "rejected"]),
    h("c13_delegation", "two statements signed by any of three keys; symbolic signatures, subnet ids, contents; nested delegations", covers=["accepted", "rejected"]),
    h("c13_subnets", "delegation certificates attesting two subnets with symbolic ids of 1 and 2 bytes, keys or ranges hidden or missing, outer certificate signed by any of the keys", covers=["accepted", "rejected"]),
    h("c13_large", "delegation certificates that attest 10 and 60 subnets with ids of 1 to 30 bytes, two keys, trees with 70000 bytes more, signatures of 48, 96 and 1000 bytes.", covers=["accepted", "rejected"]),
    h("c13_nested", "a chain of two delegations for any two subnets of one byte, the second for any of three keys, it and the certificate signed by any of them, the inner delegation naming any subnet", covers=["rejected"]),
    h("c13_tree", "every tree of up to 3 nodes shown under the signature of every tree of up to 3 nodes", covers=["accepted", "rejected"]),
    h("c13_delegation_t", "signatures of 2 bytes", tiers=T),
    h("c13_tree_t", "trees of up to 5 nodes", tiers=T),
], "keys differ from one another in two symbolic bytes only", assumptions=BLS)
spec("C14", "cv", [
    h("c14_ranges", "up to 3 ranges of principals of 0 to 2 symbolic bytes, ids of 0 to 2 bytes; canister ids of 10 bytes; principals of 9, 28 and 29 bytes", covers=["accepted", "rejected"]),
    h("c14_many", "5 and 20 ranges in 3 orders, one of them arbitrary, ids of 0 to 2 bytes", covers=["accepted", "rejected"]),
    h("c14_wide", "130 and 300 ranges, one of them arbitrary in a byte of each end.", covers=["accepted", "rejected"]),
    h("c14_paths", "ranges of other subnets, of the outer certificate, at other paths, hidden or missing", covers=["accepted", "rejected"]),
    h("c14_bytes", "every byte string of up to 4 bytes in place of the ranges", covers=["malformed"]),
    h("c14_mutated", "encoded ranges with any byte replaced", covers=["malformed", "accepted"]),
    h("c14_ranges_t", "up to 4 ranges, principals of up to 3 bytes", tiers=T),
    h("c14_mutated_t", "two neighbouring bytes replaced", tiers=T),
], "canister ids given by the caller are principals (at most 29 bytes): a longer one is the caller's mistake and panics", assumptions=BLS)
spec("C15", "cv", [
    h("c15_history", "every sequence of 3 verifications with symbolic signatures, contents and keys, against 2 symbolic signed triples", covers=["accepted", "rejected"]),
    h("c15_split", "signatures of 0 to 3 bytes (the cache key is a hash of key, signature and message put together), repeated verification", covers=["accepted", "rejected"]),
    h("c15_many", "20 and 150 verifications, right and wrong, before one with an arbitrary key and signature byte.", covers=["accepted", "rejected"]),
    h("c15_delegation", "two verifications of plain and delegated certificates for symbolic canisters", covers=["accepted", "rejected"]),
    h("c15_history_t", "4 verifications", tiers=T),
], "more than 100000 different certificates (eviction)", assumptions=BLS)

HTTP = "header names and query parameters of more bytes than stated; header names are HTTP tokens (a name with a colon could collide with the pseudo headers)"
spec("C25", "http", [
    h("c25_spec", "3 methods, queries of up to 3 characters (names, '=', '&') or none, up to 2 headers (names from a 4-letter alphabet with both cases and '-', values of 0 to 1 ASCII characters), bodies of 0 to 1 bytes, up to 1 certified header and 1 parameter: the hash is the specification's"),
    h("c25_bind", "all pairs of requests with 2 methods, 0 or 1 headers, queries of 0 or 1 characters or none, bodies of 0 to 1 symbolic bytes", covers=["same", "different"]),
    h("c25_query", "all pairs of queries of up to 3 characters, up to 2 certified parameters", covers=["same", "different"]),
    h("c25_headers", "pairs of up to 3 and up to 2 headers in any order, letter case and repetition, up to 2 certified names", covers=["same", "different"]),
    h("c25_anyname", "header names and certified names of 1 to 2 arbitrary token characters (and longer names with one), values of up to 2 arbitrary visible characters"),
    h("c25_anyquery", "queries of up to 4 arbitrary characters, and of longer shapes with arbitrary characters; parameters of 1 to 2 arbitrary characters"),
    h("c25_large", "71 headers and parameters with names of up to 300 and values of up to 9000 characters, one of them arbitrary; 0, 67 or 71 certified ones; bodies of 65537 and 2000001 bytes with an arbitrary one."),
    h("c25_bind_t", "pairs of up to 2 and 1 headers", tiers=T),
    h("c25_query_t", "queries of up to 5 characters", tiers=T),
], HTTP)
spec("C26", "http", [
    h("c26_spec", "every status, up to 2 headers of which one may be the certificate or the expression in any letter case, bodies of 0 to 1 bytes or a symbolic body hash, up to 1 certified or excluded header: the hash is the specification's"),
    h("c26_bind", "all pairs of responses of any status, 0 or 1 headers and bodies of 0 to 1 symbolic bytes", covers=["same", "different"]),
    h("c26_filter", "up to 3 headers, up to 2 certified or excluded names", covers=["certificate", "no certificate"]),
    h("c26_special", "pairs with certificate and expression headers that are certified, excluded or neither", covers=["same", "different"]),
    h("c26_anyname", "names of arbitrary token characters and names that differ from the special ones by one character replaced, added or missing; certified and excluded names likewise"),
    h("c26_many", "3, 9 and 20 headers of which one is changed arbitrarily, up to 10 certified or excluded names, bodies of up to 1000 bytes, any status"),
    h("c26_large", "71 headers with names of up to 300 and values of up to 9000 characters, 0, 67 or 71 certified or excluded; bodies of 65537 and 2000001 bytes with an arbitrary one."),
    h("c26_bind_t", "pairs of up to 2 and 1 headers, up to 2 names", tiers=T),
], HTTP)
spec("C27", "http", [
    h("c27_spec", "up to 2 pairs, keys of 0 to 1 ASCII characters, values: texts and byte strings of 0 to 1 symbolic bytes, 16-bit numbers"),
    h("c27_array", "a pair with an array of up to 2 such values"),
    h("c27_order", "every permutation of up to 3 pairs", covers=["permuted"]),
    h("c27_bind", "all pairs of maps of up to 2 and up to 1 entries", covers=["same", "different"]),
    h("c27_number", "all pairs of 64-bit numbers"),
    h("c27_nested", "all pairs of values of nesting depth 1 with arrays of up to 2 elements", covers=["same", "different"]),
    h("c27_large", "up to 70 pairs with keys of up to 300, texts of 9000 and byte strings of 66000 bytes, arrays of 40 values, one byte or element arbitrary; in two orders."),
    h("c27_spec_t", "up to 3 pairs", tiers=T),
    h("c27_order_t", "every permutation of 4 pairs", tiers=T),
    h("c27_bind_t", "all pairs of maps of up to 2 entries", tiers=T),
    h("c27_nested_t", "nesting depth 2 against depth 1", tiers=T),
], "longer keys and values, more pairs")
spec("C30", "http", [
    h("c30_header", "responses of up to 2 headers: the expression in any letter case or close names, with the right value, another one or one with a blank more", covers=["created", "refused"]),
    h("c30_text", "response-only and full expressions with any one byte of the header's text replaced, inserted at either end or cut off", covers=["created", "refused"]),
    h("c30_name", "header names that differ from the expression's by one arbitrary character replaced, added, or by missing ones", covers=["created", "refused"]),
    h("c30_full", "full certifications for any status, symbolic headers, bodies, queries and body hashes; the tree node carries the three specified hashes"),
    h("c30_other", "every kind of expression over 4 lists of names in the header, against every other one", covers=["created", "refused"]),
    h("c30_header_t", "up to 3 headers", tiers=T),
], "other expressions than the ones built here (C23 is about their text)")
RV = "longer headers, names, bodies and URLs than stated; a URL path the http crate itself does not accept"
spec("C16", "rv", [
    h("c16_version", "no version, one ASCII character or 2 to 3 of '0125+' as the version, every minimum version, a response certified for both versions", covers=["accepted", "rejected"]),
    h("c16_any", "any 2 to 3 ASCII characters, a version with up to 3 around it, or followed by a sign and up to 9 zeros", covers=["accepted", "rejected"]),
    h("c16_missing", "every combination of missing certificate header, certificate, tree, path and expression, versions 1, 2 and none, every minimum version", covers=["accepted", "rejected"]),
], RV, assumptions=BLS)
spec("C17", "rv", [
    h("c17_data", "skip, response-only and full certifications, versions 1 and 2; certified data right, with symbolic bytes, cut off or extended", covers=["accepted", "rejected"]),
    h("c17_place", "certified data of other canisters (ids of 0 to 2 symbolic bytes), in other places, hidden or next to the right place", covers=["accepted", "rejected"]),
    h("c17_many", "state trees of 5 and 60 canisters with ids of 1 to 29 bytes, balanced or a chain; the id as certified, another one, or with an arbitrary byte.", covers=["accepted", "rejected"]),
], RV, assumptions=BLS)
spec("C18", "rv", [
    h("c18_response", "a certified and a presented response with any status, 0 to 1 headers, bodies of 0 to 1 symbolic bytes, 0 to 1 certified or excluded names", covers=["accepted", "rejected"]),
    h("c18_request", "a certified and a presented request: 2 methods, no query or one of 1 character, bodies of 0 to 1 symbolic bytes, 0 to 1 certified headers and parameters; certified requests with 0 to 1 headers", covers=["accepted", "rejected"]),
    h("c18_headers", "two responses of up to 2 headers each under a full certification with 0 to 1 certified or excluded names", covers=["accepted", "rejected"]),
    h("c18_kind", "trees that hold a value, nothing, a hidden part, one label more or less or other hashes (2 symbolic bytes) below the expression; the response shows any of three kinds of expression", covers=["accepted", "rejected"]),
    h("c18_place", "three entries of two expressions at two paths with symbolic bodies and queries; any response, query and path presented", covers=["accepted", "rejected"]),
    h("c18_anyname", "certified and presented headers of arbitrary token characters (1 to 2, or one in a longer name) and values, certified and excluded names likewise", covers=["accepted", "rejected"]),
    h("c18_anyquery", "certified and presented queries of up to 2 arbitrary characters, or headers of arbitrary name and value; certified names of one arbitrary character", covers=["accepted", "rejected"]),
    h("c18_many", "requests and responses with 4 and 12 headers, long bodies and queries under a full certification, any one part changed", covers=["accepted", "rejected"]),
    h("c18_large", "responses of 65536 and 2000001 bytes with an arbitrary byte at the start, the middle or the end, or one byte more or less.", covers=["accepted", "rejected"]),
    h("c18_large_request", "the same for requests of 4097, 65536 and 2000001 bytes.", covers=["accepted", "rejected"]),
    h("c18_long", "requests and responses with 71 headers and 41 query parameters, names of up to 300 and values of up to 9000 characters, all of them listed in the expression; any one character at nine places arbitrary, or a header missing.", covers=["accepted", "rejected"]),
    h("c18_response_t", "presented responses of up to 2 headers in both letter cases, without bodies", tiers=T),
    h("c18_request_t", "presented requests of up to 1 header", tiers=T),
], RV, assumptions=BLS)
spec("C19", "rv", [
    h("c19_paths", "two certified exact or wildcard paths of up to 2 segments, URLs of up to 2 segments, each with or without a slash at the end, segments of one symbolic letter", covers=["accepted", "rejected"]),
    h("c19_pruned", "two certified paths of up to 1 segment, URLs of up to 2, any one node of the tree hidden", covers=["accepted", "rejected"]),
    h("c19_url", "URLs of up to 4 characters of '/a%2fF61' (percent encoding, empty segments) against four certified paths", covers=["accepted", "rejected"]),
    h("c19_names", "segments http_expr, <*> and <$>; expression paths with segments missing or changed", covers=["accepted", "rejected"]),
    h("c19_any", "paths and URLs of up to 2 segments of arbitrary characters, and dot segments", covers=["accepted", "rejected"]),
    h("c19_percent", "URLs of 1 or 2 arbitrary percent-encoded bytes in either letter case, against six certified paths", covers=["accepted", "rejected"]),
    h("c19_deep", "URLs of 3 to 4 segments, one of them arbitrary, with a wildcard and another entry of every depth around them", covers=["accepted", "rejected"]),
    h("c19_far", "paths of 9 and 24 segments of up to 301 characters, wildcards of four depths and another entry around the end.", covers=["accepted", "rejected"]),
    h("c19_deep_t", "URLs of 3 to 6 segments", tiers=T),
    h("c19_paths_t", "three certified paths of up to 1 segment", tiers=T),
], RV, assumptions=BLS)
spec("C20", "rv", [
    h("c20_headers", "up to 2 headers in both letter cases and repeated, 0 to 1 certified or excluded names, any status, bodies of 0 to 1 symbolic bytes, the certificate and expression headers anywhere in either case", covers=["accepted"]),
    h("c20_kinds", "versions 1 and 2, skip, response-only and full certifications, any status, a symbolic header value and body", covers=["accepted"]),
    h("c20_anyname", "headers and certified or excluded names of 1 to 2 arbitrary token characters, arbitrary values", covers=["accepted"]),
    h("c20_many", "71 headers with long names and values, one character at eight places arbitrary; up to 71 certified or excluded names.", covers=["accepted"]),
    h("c20_headers_t", "up to 3 headers, up to 2 names", tiers=T),
], RV, assumptions=BLS)
spec("C21", "rv", [
    h("c21_body", "bodies and certified bodies of 0 to 2 symbolic bytes, certified digests right, changed, cut off or extended, at three paths", covers=["accepted", "rejected"]),
    h("c21_place", "a path of one symbolic letter, with or without an index, any value or one other node of the tree hidden, URLs of one symbolic letter", covers=["accepted", "rejected"]),
    h("c21_encoding", "plain, deflate and gzip bodies with stored blocks and a symbolic byte under any of seven stated encodings or none", covers=["accepted", "rejected"]),
    h("c21_gzip", "gzip and deflate streams of 1 to 2500 bytes (around the size of the read buffer) with any one byte of magic, block header, length, data, checksum or size arbitrary, or cut off", covers=["accepted", "rejected"]),
    h("c21_packed", "a compressed stream, whole or cut off anywhere, under five stated encodings", covers=["accepted", "rejected"]),
    h("c21_url", "URLs of arbitrary characters, percent-encoded bytes, doubled slashes and queries, with and without an index", covers=["accepted", "rejected"]),
    h("c21_long", "bodies of 64, 1000 and 5000 bytes with one arbitrary byte, cut off or extended, any status", covers=["accepted", "rejected"]),
    h("c21_large", "bodies of 65536 and 2000001 bytes with one arbitrary byte, or one more or less.", covers=["accepted", "rejected"]),
    h("c21_many", "20 and 100 certified paths of up to 404 characters, with and without an index; URLs with one arbitrary character changed or more.", covers=["accepted", "rejected"]),
    h("c21_place_t", "two paths", tiers=T),
], RV + "; one compressed stream only: decoding is flate2's", assumptions=BLS)
spec("C22", "rv", [
    h("c22_text", "every UTF-8 text of up to 3 bytes, alone and after a complete header", covers=["accepted", "rejected"]),
    h("c22_base64", "every ASCII text of 1 to 3 characters in place of the certificate, its end, the tree or the path", covers=["accepted", "rejected"]),
    h("c22_twice", "a complete header with 1 to 2 further fields anywhere: repeated, unknown or empty ones, right and wrong", covers=["accepted", "rejected"]),
    h("c22_field", "a complete header with any ASCII character added or put in place of another, or one removed, at any delimiter", covers=["accepted", "rejected"]),
    h("c22_large", "certificates and trees of up to 70000 bytes, up to 40 further fields of 100 characters, one wrong character in the text of the certificate or the tree.", covers=["accepted", "rejected"]),
    h("c22_text_t", "texts of up to 4 bytes", tiers=T),
], RV + "; what another base64 text of the same field decodes to (C10 and C11 judge the decoders)", assumptions=BLS)
spec("C23", "rv", [
    h("c23_text", "every UTF-8 text of up to 3 bytes", covers=["rejected"]),
    h("c23_parts", "a skip, a response-only and a full expression of which any one part (object, list, text, name, property) is left out, doubled, renamed to any other known name, exchanged or replaced by one of another kind", covers=["accepted", "rejected"]),
    h("c23_skip", "the skip expression with any one ASCII character inserted, replaced or removed anywhere", covers=["accepted", "rejected"]),
    h("c23_only", "the same for a response-only expression with a certified header", covers=["accepted", "rejected"]),
    h("c23_except", "the same for one with two excluded headers", covers=["accepted", "rejected"]),
    h("c23_nesting", "expressions nested 5, 70, 1000 and 30000 deep in five ways, closed or not", covers=["rejected"]),
    h("c23_many", "expressions with 71 or 66 names, one of them of 300 characters, with any ASCII character at eight places.", covers=["accepted", "rejected"]),
    h("c23_parts_t", "a response-only and a full expression with one such change, and one more part left out or two exchanged", tiers=T),
    h("c23_full_t", "the same for a full expression with header, parameters and certified header", tiers=T),
    h("c23_spaced_t", "the same for a full expression with white space everywhere", tiers=T),
    h("c23_text_t", "texts of up to 4 bytes", tiers=T),
], "texts with duplicate or unknown properties, escapes, additional arguments or other values in place of Empty{}: what they mean is not settled, only that they do not crash", assumptions=BLS)
spec("C24", "rv", [
    h("c24_only", "response-only expressions with up to 2 names of one symbolic token character", covers=["accepted"]),
    h("c24_request", "full expressions with up to 1 header name (one token character) and 2 parameters (one character allowed in URLs), and the skip expression", covers=["accepted"]),
    h("c24_long", "1, 3 and 12 long names of which one holds an arbitrary character, response-only and full", covers=["accepted"]),
    h("c24_large", "71 names and 41 parameters, one of each of 300 characters.", covers=["accepted"]),
    h("c24_names_t", "names of two characters", tiers=T),
], "longer names; names with quotes or backslashes (neither HTTP tokens nor RFC 3986 query strings can hold them; the writer does not escape them)", assumptions=BLS)
spec("C28", "http", [
    h("c28_one", "one entry and another one or the same: exact or wildcard, paths of up to 2 segments of a or b with or without a slash at the end, three kinds of certification; URLs of up to 3 segments", covers=["in the tree", "not in the tree"]),
    h("c28_two", "up to two further entries of up to 1 segment, URLs of up to 2", covers=["in the tree", "not in the tree", "a more specific path is certified"]),
    h("c28_names", "segments http_expr, <*> and <$>", covers=["in the tree", "not in the tree"]),
    h("c28_any", "one other entry, paths of up to 1 and URLs of up to 2 segments of 1 to 2 arbitrary characters, or <*> and <$>", covers=["in the tree", "not in the tree"]),
    h("c28_deep", "URLs of 3 to 4 segments, one of them arbitrary, against wildcards of every depth, with two other entries of every depth around them", covers=["a more specific path is certified"]),
    h("c28_far", "paths of 9 and 24 segments of up to 301 characters."),
    h("c28_deep_t", "URLs of 3 to 6 segments", tiers=T),
    h("c28_two_t", "two further entries of up to 2 segments, URLs of up to 3", tiers=T),
    h("c28_three_t", "three further entries of up to 1 segment", tiers=T),
], "longer paths, more entries; URLs the entry does not cover")
spec("C29", "http", [
    h("c29_history", "every sequence of 4 insertions, deletions and clearings of four entries that share paths and expressions", covers=["empty"]),
    h("c29_paths", "every sequence of 4 insertions and deletions of three entries with arbitrary paths of up to 2 segments", covers=["empty"]),
    h("c29_any", "sequences of 3 steps with an entry of up to 2 segments of arbitrary characters", covers=["empty"]),
    h("c29_many", "5 and 12 entries and an arbitrary one, any two of them deleted, then all"),
    h("c29_history_t", "5 steps", tiers=T),
    h("c29_paths_t", "three arbitrary entries, of two kinds of certification", tiers=T),
], "longer histories")
spec("C35", "rv", [
    h("c35_response", "skip, response-only and full certifications with 0 to 1 names, any status, up to 2 headers, bodies of 0 to 2 symbolic bytes", covers=["accepted"]),
    h("c35_request", "7 methods, no query or one of up to 2 characters, 0 to 1 headers, bodies of 0 to 1 symbolic bytes, up to 1 certified header and 2 parameters", covers=["accepted"]),
    h("c35_path", "exact or wildcard entries of up to 1 segment, another entry, URLs of up to 2 segments of one symbolic letter, with or without a slash at the end", covers=["accepted", "rejected"]),
    h("c35_anyname", "headers, parameters and queries of arbitrary characters", covers=["accepted"]),
    h("c35_anypath", "paths of arbitrary characters, exact and wildcard", covers=["accepted"]),
    h("c35_deep", "URLs of 3 to 5 segments under wildcards of every depth, with another entry of every depth", covers=["accepted", "rejected"]),
    h("c35_large", "71 headers, 41 parameters, long names and values (one arbitrary character), all of them certified; bodies of responses and requests of 65537 and 2000001 bytes.", covers=["accepted"]),
    h("c35_far", "paths of 9 and 24 segments of up to 301 characters, wildcards of four depths and another entry around the end.", covers=["accepted", "rejected"]),
    h("c35_skip", "the helpers that declare nothing certified: any status, header, small body; URLs with an arbitrary segment; any byte of the certified data changed", covers=["accepted", "rejected"]),
    h("c35_both_t", "entries of up to 2 segments, URLs of up to 3", tiers=T),
], RV, assumptions=BLS)
AR = "methods other than GET and bodies (the router ignores both); configurations that certify two things at the same place; assets with two slashes in a row in their name; the inside of the compression formats"
spec("C31", "asset", [
    h("c31_paths", "two assets at paths of up to 1 segment of a or b with or without a slash at the end, or one and a redirect; an alias, fallbacks at any such scope or the empty one; URLs of up to 2 segments", covers=["served", "nothing", "accepted"]),
    h("c31_config", "bodies of 0 to 2 symbolic bytes, content types and header values of one symbolic character, redirects to 0 to 2 of them, at seven URLs", covers=["served", "accepted"]),
    h("c31_status", "any status code of a fallback", covers=["served", "accepted"]),
    h("c31_names", "asset names and aliases with any printable character, requested percent encoded", covers=["served", "accepted"]),
    h("c31_url", "URLs of up to 4 characters of '/a%2fF61' (percent encoding, empty segments) against two assets, an alias and a fallback", covers=["served", "nothing", "accepted"]),
    h("c31_patterns", "every ordered pair of nine glob patterns and six asset names: the first that matches counts", covers=["served", "accepted"]),
    h("c31_query", "requests with queries of up to 2 characters of 'aq=&'", covers=["served"]),
    h("c31_any", "any two characters a path may have (also percent-encoded ones) in names, aliases, scopes and requested URLs", covers=["served", "nothing"]),
    h("c31_many", "13 assets, 9 fallback scopes within one another, 8 aliases and 2 redirects; URLs of up to 4 segments", covers=["served"]),
    h("c31_paths_t", "paths of up to 2 segments", tiers=T),
], AR, assumptions=BLS)
spec("C32", "asset", [
    h("c32_accept", "Accept-Encoding of up to 2 of nine names with four weights, two separators, in both spellings of the header; five sets of certified encodings", covers=["served", "accepted"]),
    h("c32_text", "four header texts with any ASCII character inserted or put in place of another", covers=["served", "accepted"]),
    h("c32_fallback", "encoded fallbacks, aliases and another fallback, six URLs, five header texts", covers=["served", "nothing", "accepted"]),
    h("c32_name", "every spelling of the header's name in large and small letters", covers=["served"]),
    h("c32_weight", "every weight from 0 to 1 of up to 3 digits, in lists of 1 to 5 encodings", covers=["served"]),
    h("c32_accept_t", "up to 3 names", tiers=T),
], AR + "; weights other than zero (the configured order decides, not the weights)", assumptions=BLS)
spec("C33", "asset", [
    h("c33_range", "assets of 2000001, 4000000 and 4000001 bytes with symbolic bytes at the borders of their parts, at their own path or an alias", covers=["whole", "accepted"]),
    h("c33_outside", "one body of one byte more than one part, two parts, one byte more than two parts, or three parts, or the encoded version of such a body; an open range starting one byte before, at, or one byte after each multiple of the part size up to four", covers=["served", "refused"]),
    h("c33_encoded", "the same with a gzip version of one or two parts", covers=["whole", "accepted"]),
    h("c33_small", "assets of 0, 1, 3 and 2000000 bytes under five range headers, with or without a fallback", covers=["served", "accepted"]),
    h("c33_text", "range headers with any 0 to 2 ASCII characters in five places, numbers up to beyond 64 bits", covers=["served", "refused"]),
    h("c33_name", "every spelling of the Range header's name, of an encoded and an unencoded asset", covers=["served"]),
    h("c33_fallback", "a large asset that is a fallback for one of four scopes, too", covers=["served", "whole"]),
    h("c33_text_t", "up to 4 characters", tiers=T),
], AR + "; assets of more than three parts", assumptions=BLS)
spec("C34", "asset", [
    h("c34_history", "every sequence of 3 certifications and deletions of three sets (encodings, aliases, fallbacks, headers, a redirect) and of deleting everything", covers=["empty", "served", "nothing", "accepted"]),
    h("c34_large", "assets of two or three parts, with or without an alias and an encoded version"),
    h("c34_config", "two sets of an asset, alias or fallback and a redirect at any paths of up to 1 segment (2 for the redirect), deleted one after the other; URLs of up to 2 segments", covers=["served", "nothing", "accepted"]),
    h("c34_any", "any characters in names, aliases, scopes, header names and values", covers=["served"]),
    h("c34_replace", "one of 8 among the 13 assets deleted, or replaced by one with other contents, aliases, scopes or type", covers=["served", "nothing"]),
    h("c34_history_t", "4 steps", tiers=T),
], AR, assumptions=BLS)
spec("C37", "rv", [
    h("c37_literals", "fixed-code streams of 1 to 1026 literals (around the size of the read buffer), the last one or two arbitrary", covers=["accepted", "rejected"]),
    h("c37_match", "a stored block of 1 to 33000 bytes and a copy of any length from 3 to 258 (or 6 lengths) from up to 12 distances, the first copied byte arbitrary in deflate streams", covers=["accepted", "rejected"]),
    h("c37_blocks", "1 to 3 blocks, stored (0 to 65535 bytes, the last arbitrary in deflate streams), with copies, or empty", covers=["accepted", "rejected"]),
    h("c37_changed", "a stream with dynamic codes and one of mostly literals, with any byte in one of seven places", covers=["same", "other", "broken"]),
    h("c37_prefix", "every stream of 2 bytes", covers=["empty", "broken"]),
    h("c37_members", "gzip streams with any combination of optional fields, any one byte of checksum and size arbitrary, or up to 9 bytes cut off", covers=["accepted", "rejected"]),
    h("c37_padding", "stored blocks of 0, 1, 94, 156 or 218 bytes after any padding bits (so that a stream may begin as zlib streams do), followed by another one or an empty block", covers=["accepted", "rejected"]),
    h("c37_big", "stored bodies of 32769, 70001 and 140000 bytes, and run-length coded ones of 65536 to 2100001 bytes, the last byte arbitrary in deflate streams", covers=["accepted", "rejected"]),
    h("c37_other", "encodings of up to 4 arbitrary characters, gzip and deflate with one character changed or added, lists of encodings, and known others, for plain, deflate and gzip bodies", covers=["decoded", "sent"]),
    h("c37_changed_t", "the two streams with any byte in any place", covers=["same", "other", "broken"], tiers=T),
    h("c37_big_t", "stored bodies of up to 2100001 bytes, run-length coded ones of up to 3000001", covers=["accepted", "rejected"], tiers=T),
], "bytes that follow the end of a stream; letter case of encodings; a limit on the decoded size (there is none)", assumptions=BLS + ["flate2 and miniz_oxide are executed as they are, in their portable form"])
spec("C38", "js", [
    h("c38_request", "a fully certified request, as it is or with another method, URL, query name, header value or body byte (any), in five orders of properties, body as Uint8Array or numbers, with and without further properties", covers=["accepted", "rejected"]),
    h("c38_response", "a certified response under both versions, as it is or with another status, body byte, header value or header name (any), in the same forms", covers=["accepted", "rejected"]),
    h("c38_shown", "accepted responses of four kinds of certification with up to one more header of any name and value (up to 2 characters), ten status codes, bodies of 0 to 3 bytes, both versions", covers=["accepted"]),
    h("c38_repeated", "two or three headers of three names (two spellings of one) and three values", covers=["accepted"]),
    h("c38_versions", "every minimum version, all times and offsets of 64 bits, canister ids of 0 to 2 bytes, keys changed or cut off", covers=["accepted", "rejected"]),
    h("c38_errors", "headers and fields missing or broken, five versions, six expression paths, URLs that are none", covers=["accepted", "rejected"]),
    h("c38_codes", "one error of every kind that can be made from outside the crates"),
    h("c38_anytext", "header values of two bytes of any UTF-8 text or three ASCII characters, any names and queries", covers=["accepted"]),
    h("c38_shown_t", "up to two more headers", covers=["accepted"], tiers=T),
], "JavaScript values that are no request or response; the glue wasm-bindgen generates", native=False, assumptions=BLS + ["JavaScript objects behave as the model in harness/src/js.rs (compared with JavaScript itself under V8 on sampled paths)"])
spec("C40", "msg", [
    h("c40_request", "requests with 11 methods, up to 4 headers (repeated ones too), bodies of 0 to 3 bytes, any version or none; update requests made of them", covers=["request"]),
    h("c40_response", "every status code, up to 4 headers, bodies of 0 to 3 bytes, upgrade or none; update responses, builders made of them", covers=["response"]),
    h("c40_text", "a method, URL, header name or value of up to 2 characters of any UTF-8 text", covers=["text"]),
    h("c40_reject", "methods of up to 3 bytes of any text, all status codes of 16 bits", covers=["accepted", "rejected"]),
    h("c40_large", "71 headers, values of 128 and 301 characters, URLs of 300 and 20000 characters, bodies of up to 70001 bytes, one arbitrary byte", covers=["large"]),
    h("c40_bytes", "the Candid form of a request, an update request and a response, with any byte replaced by any other", covers=["read", "rejected"]),
    h("c40_url", "URLs with or without origin, path (up to 1 arbitrary, percent-encoded or literal character, or several), query and fragment", covers=["path", "no text"]),
    h("c40_anyurl", "URLs of five beginnings and up to 3 arbitrary characters", covers=["path", "none"]),
    h("c40_convert", "up to 3 calls of a builder in any order, the shorthands for five methods, headers added later", covers=["built"]),
    h("c40_text_t", "up to 3 characters", covers=["text"], tiers=T),
    h("c40_bytes_t", "two neighbouring bytes replaced", covers=["read", "rejected"], tiers=T),
    h("c40_url_t", "up to 2 arbitrary characters in the path", covers=["path", "no text"], tiers=T),
    h("c40_anyurl_t", "up to 4 arbitrary characters", covers=["path", "none"], tiers=T),
], "Candid itself (the candid crate is executed as it is, and is the oracle for what plain records hold); longer texts; which methods and URLs the http crate accepts beyond what HTTP allows")
spec("C39", "typescript", [
    h("one", "one call; certificate times of 64 bits, clocks up to 2^52 and offsets up to 2^50 whole milliseconds; certified data missing or of 0, 1, 31, 32 or 33 bytes, of any content; any root hash; every outcome of the certificate's and the tree's own checks"),
    h("two", "two calls, one after the other, with two certificates and trees"),
    h("again", "two calls with the same certificate and tree, at different times and with different offsets"),
    h("keys", "two calls with the same certificate and tree, for two canisters and two root keys"),
    h("trees", "two calls with the same certificate and two trees"),
    h("together", "two calls at the same time, whose steps take 0 or 1 turns more each"),
    h("together_t", "the same with 0 to 3 turns", tiers=T),
    h("three_t", "three calls, the last with the first certificate and tree", tiers=T),
], "what @dfinity/agent, candid and principal do themselves (they are not in this repository); a clock that moves during a call; fractions of milliseconds in the offset",
    technique="symbolic execution of the TypeScript source (operators and conditions instrumented, run under node) with Z3; every path replayed on the code as it is",
    trusts="TypeScript's transpiler, the instrumentation in ts/ (every path is run again on the code as it is) and Z3. Numbers are reals, bigints integers",
    assumptions=["Certificate.create fails unless the certificate is valid for this root key and canister; lookup gives the bytes at a path or nothing; reconstruct gives the root hash of a tree, lebDecode the number; compare is zero for equal bytes only",
                 "the instrumentation in ts/instrument.js and ts/sym.js and Z3 4.8.12; numbers are taken as reals (exact for the whole numbers in these bounds)"])
