"""Which contract units decide which property."""
SHA = "SHA-256 is an uninterpreted function of the byte sequence given to it (collision resistance is not needed for these statements)"
CLOS = "A closure passed to modify/nested_witness/for_each by the user is represented by its own precondition and postcondition (FnOnce contract)"
KEYS = "AsRef<[u8]> of a key type returns the same bytes every time, K::clone copies them, and conversion of a byte slice to Vec<u8>/Cow copies them"
LABEL = "Label's derived comparisons are those of its bytes"
NOM = "nom 7's combinators (take, be_*, map, count...) satisfy the contracts written for them in contracts/nom.vc; HashMap::insert/get behave as a map"
ITER = "std iterator adapters (map, any, collect into Result<Vec>) satisfy the contracts in contracts/iter.vc"
PRIN = "candid::Principal::try_from_slice accepts exactly the byte strings of at most 29 bytes"
BLS = "The BLS library's verdict on 96-byte keys and 48-byte signatures in compressed form is an uninterpreted function of key, signature and message; core_verify does not panic on them"
CBORC = "Certificate::from_cbor and parse_cbor_principals_array are functions of their input (their contracts are discharged in the unit cbor, property C09)"
ORD = "candid::Principal is ordered by length, then content"
COLL = "No two different byte strings hashed for the signature cache have the same SHA-256"
CACHE = "cached::SizedCache behind parking_lot::Mutex returns only keys that were put in (it may forget); std::cell/lazy_static initialisation gives an empty cache"
LEB = "leb128::read::unsigned is a function of its input"
STRS = "str/String operations of std (split, ends_with, to_ascii_lowercase, eq_ignore_ascii_case, push_str, join, UTF-8 encoding) satisfy the contracts in contracts/str.vc and contracts/http_types.vc; lower-casing is an uninterpreted function, except that no other text has the Unicode lower case of the expression header's name"
COW = "Cow dereferences to what it holds"
SORT = "sort_unstable sorts pairs of hashes in the order of their bytes; leb128::write::unsigned writes the unsigned LEB128 encoding"
URI = "http::Uri's parsing and urlencoding::decode are functions of the text (uninterpreted); http::Method/StatusCode print and convert as themselves"
DYN = "a boxed closure answers as the closure in it; Display of an expression writes the text of create_*_cel_expr"
RESP = [SHA, STRS, ITER, COW, URI, "Certificate::verify, from_cbor, HashTree::from_cbor and parse_cbor_string_array are functions of their input (their contracts are discharged in the units cert and cbor)", "base64 decoding, u8::from_str and HashMap<String, String> built from the headers (the last of equal names wins) satisfy the contracts in contracts/verify_spec.vc; derived PartialEq of HashTreeNode is structural", "Certificates' canister_id argument has at most 29 bytes"]
RNP = ["the CEL parser (parse_cel_expression, map_cel_ast): named cel_ast/cel_of in these contracts; property C16"]
INF = "flate2's readers give the bytes they decode in order, then 0, or fail (their output is an uninterpreted function of the body)"
ASSET = [SHA, STRS, ITER, COW, URI, "HashMap<RequestKey, CertifiedAssetResponse> is a map by the request key's contents (contracts/asset_spec.vc, KeyMap); HashMap<Cow<str>, Asset> collected from pairs keeps the last of equal paths, and values() gives every entry in some order (contracts/asset_batch.vc, PathMap)", "globset: the matcher is a function of the pattern, and what it matches of matcher and path (uninterpreted)",
         "HttpCertificationTree, in unit asset, is known by its contract only: entry paths present (has), put/cut, witness_for. Unit httree discharges that contract from the tree's code (has_entry, under, apart, lemma_leaves, lemma_nothing_left); the ghost bit clean() is the history fact that every entry inserted so far was neither above, below nor at another",
         "Rc<RefCell<HttpCertificationTree>> is held by the router alone while a method of the router runs (no other owner borrows or changes it meanwhile)",
         "decimal text of numbers, u8/usize::from_str, str::trim and strip_prefix are functions of the text with the contracts of contracts/asset_spec.vc and asset_serve.vc (dec, num, ax_trim, ax_low_len); a Vec<u8> body has at most isize::MAX bytes (ax_body_len)",
         "derived Clone of assets, responses and configurations copies them; base64 and CBOR texts in the certificate header are uninterpreted functions of witness and path",
         "prioritized_encodings ranks the encodings of the Accept-Encoding header (f32 sort): its result is named ranked() and only its being a list of encodings is used"]
ANP = ["prioritized_encodings/default_encoding_quality (floating point), AssetMap::get/iter: bounded run",
       "that the verifier of C19 accepts what lemma_served_verifies proves about the response: bounded run (the harness verifies every served response)"]
PROPS = {
    "C01": {"units": ["hash_tree"], "assumptions": [SHA], "title": "digest"},
    "C02": {"units": ["hash_tree"], "assumptions": [], "title": "lookups"},
    "C03": {"units": ["rb_tree"], "assumptions": [SHA, KEYS, CLOS], "title": "map root hash"},
    "C04": {"units": ["rb_tree"], "assumptions": [KEYS, CLOS, "Iter::step compares nodes by address: two equal nodes of a map in which no key occurs twice are taken to be the same node (is_same); FromIterator: the IntoIterator argument is a finite list (Listed); the FnMut callback of Node::visit is told apart by the calls it has had (Callback)"], "title": "ordered map",
            "not_proved": ["RbTree::for_each hands its callback to Node::visit, which is under contract; that one call: bounded run",
                           "PartialEq/Ord/Debug of RbTree: bounded run only"]},
    "C05": {"units": ["rb_tree"], "assumptions": [SHA, KEYS, CLOS], "title": "witnesses"},
    "C06": {"units": ["nested"], "assumptions": [SHA, KEYS, "trait impl AsHashTree for NestedTree (mutually recursive with RbTree's impl): inv and tree_spec are stated as recursive axioms; the two method bodies are verified as inherent functions with the same contract"], "title": "nested map",
            "not_proved": ["Debug of NestedTree"]},
    "C07": {"units": ["merge"], "assumptions": [SHA, LABEL], "title": "merge"},
    "C09": {"units": ["cbor"], "assumptions": [NOM, ITER, PRIN], "title": "CBOR decoding",
            "not_proved": ["stack and memory use as such (nesting is bounded by contract; the bounded run decodes hostile inputs in a child process)"]},
    "C10": {"units": ["cbor"], "assumptions": [NOM, ITER,
                "serde_cbor writes the data model with shortest heads and definite lengths (enc in contracts/ser.vc), reads back what it wrote, and runs an element's own Serialize / Deserialize",
                "the derived Serialize of Certificate and Delegation writes the fields in their order under their names, and no delegation when there is none; the derived field enumerations read those names and no others",
                "Storage::convert keeps the bytes it is given"], "title": "CBOR round trip",
            "not_proved": ["serde_cbor itself and the derived implementations: bounded run only"]},
    "C11": {"units": ["cert"], "assumptions": [LEB], "title": "certificate time window"},
    "C12": {"units": ["cert"], "assumptions": [SHA, BLS, CBORC, PRIN, ORD, ITER, "canister_id has at most 29 bytes (precondition of verify: Principal::from_slice panics otherwise; the id is the caller's own)"], "title": "certificate signature and delegation"},
    "C08": {"units": ["http"], "assumptions": [SHA, SORT, STRS, ITER], "title": "representation-independent hash"},
    "C14": {"units": ["http"], "assumptions": [SHA, SORT, STRS, ITER, COW, URI, DYN], "title": "request hash"},
    "C15": {"units": ["http"], "assumptions": [SHA, SORT, STRS, ITER, COW, URI, DYN], "title": "response hash"},
    "C18": {"units": ["wild"], "assumptions": [STRS, ITER, COW], "title": "path precedence"},
    "C17": {"units": ["httree"], "assumptions": [SHA, KEYS, STRS, ITER, COW, "trait impl AsHashTree for NestedTree (see C06)", "a URL path segment is never the 32-byte hash of an expression, and the skip expression's hash is not another's (lemma_entries_apart names both as the only ways for two entries to clash)"], "title": "HTTP certification tree"},
    "C23": {"units": ["http"], "assumptions": [SHA, SORT, STRS, ITER, COW, URI, DYN], "title": "certification creation"},
    "C16": {"units": ["cel"], "assumptions": [STRS, ITER, COW, "HashMap<&str, CelValue> keeps the last of equal keys; conversions of Vec<&str> to Cow keep the items",
                "nom's combinators (multispace0, take_while, char, escaped, context, cut, preceded, terminated, tuple, separated_pair, map, alt, separated_list0) answer as stated in contracts/cel_parse.vc",
                "the recursive calls of cel_value are checked against the contract that is proved for cel_value (partial correctness: that the recursion ends is not proved)"],
            "title": "certification expressions", "not_proved": []},
    "C19": {"units": ["resp"], "assumptions": RESP, "title": "response verification", "not_proved": RNP},
    "C20": {"units": ["resp"], "assumptions": RESP + [INF], "title": "legacy response verification", "not_proved": RNP},
    "C21": {"units": ["resp"], "assumptions": RESP, "title": "content of a verified response", "not_proved": RNP},
    "C22": {"units": ["resp", "field"], "assumptions": RESP + ["nom's delimited, opt, tag, take_until, take_while, eof answer as stated in contracts/field.vc and nom_text.vc; str::trim (uninterpreted)"], "title": "certificate header", "not_proved": RNP},
    "C26": {"units": ["resp"], "assumptions": RESP, "title": "minimum version", "not_proved": RNP},
    "C27": {"units": ["resp"], "assumptions": [INF], "title": "body decoding", "not_proved": ["flate2's decoders: bounded run against encoded bodies"]},
    "C24": {"units": ["asset", "httree"], "assumptions": ASSET, "title": "asset router serves what verifies",
            "not_proved": ANP + ["that no certified wildcard is more specific than the one served is not part of verifies(): the router serves from its own map the closest enclosing scope (lemma_scope, lemma_route); the harness verifies every served response with the real verifier"],
            "note": "known findings C24-range-spelling and C24-query: lemma_served_verifies requires plain_get (no query, the range header spelled as certified)"},
    "C25": {"units": ["asset", "httree"], "assumptions": ASSET, "title": "deleted assets", "not_proved": ANP},
    "C28": {"units": ["asset"], "assumptions": ASSET, "title": "range responses", "not_proved": ANP},
    "C13": {"units": ["cert"], "assumptions": [COLL, BLS, CACHE], "title": "signature cache"},
}
NOT_APPLICABLE = {}
