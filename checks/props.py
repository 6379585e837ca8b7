# One table: properties.jsonl and MANIFEST.json are generated from it by gen_meta.py.
TV = "TLA+ specification; TLC model checking; TLC trace validation of the real code"
NOTE = ("Design model-checked by TLC within small constants; every recorded execution of the real code is checked by TLC "
        "against the same operators. ")


def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, technique=TV):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
         "check": (technique, NOTE + note)}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    return d


PROPS = [
P("C01", "Header metadata is a keyed store: no collateral change, no overlap",
  "Over any history of adding, deleting and looking up metadata, each entry keeps exactly the bytes it was given until it is "
  "itself deleted, entries are unique per (id, part reference), aligned to 8, disjoint and inside the 1920-byte area. Lookup by "
  "(id, reference) or by id alone answers the first matching live entry, and a refused operation (duplicate, table full, area "
  "full) leaves the header as it was. Space released by a deletion is usable again.",
  ["histories", "inputs"], "every sequence of add/delete/lookup with any ids, references and sizes, including full tables",
  "Tests delete one entry from one small table and add until full once; interactions of deletion with packing, full tables and "
  "sizes off the alignment need whole histories.",
  ["lib/bpak.c"], [("bpak_add_meta / bpak_del_meta / bpak_get_meta / bpak_get_meta_anyref", "lib/bpak.c")],
  "Exhaustive over the state graph of small tables (near-full tables in the real header), seeded random histories of up to 160 operations.",
  [("metadata table", "slots in use, in order", "struct bpak_header.meta"), ("metadata area", "packed data blocks", "struct bpak_header.metadata")],
  ["return codes and the header after every call"]),
P("C02", "Part table and the byte layout it implies stay consistent",
  "Over any history of adding and deleting parts, parts are unique per id, keep their order and all their fields, a part just added "
  "starts out blank but for its id, a slot that a deletion frees is blank again, and a refused "
  "operation changes nothing. The offset of a part is the header size plus the stored sizes (padded size, or transport size when "
  "transport coded) of the parts before it, so stored parts never overlap and never leave gaps, also beyond 4 GiB.",
  ["histories", "inputs"], "every history over up to 32 parts, sizes up to 2^40, all flag combinations",
  "Tests use a handful of small parts; wide sizes, full tables and mixes of transport-coded and plain parts are not reached.",
  ["lib/bpak.c"], [("bpak_add_part / bpak_del_part / bpak_get_part / bpak_part_offset / bpak_part_size", "lib/bpak.c")],
  "Exhaustive over the state graph of small tables, seeded random histories; sizes are two-limb numbers.",
  [("part table", "slots in use, in order", "struct bpak_header.parts")], ["return codes, offsets and sizes, header after every call"]),
P("C03", "Only well-formed headers are accepted; opening never damages a file",
  "A header is accepted exactly when its magic matches, every part before the first free slot is padded to 512 bytes, every "
  "metadata entry before the first free slot lies inside the metadata area, and a hash kind is set. Opening a file that is not a "
  "package fails and leaves every byte of it as it was; opening a package for reading or update changes nothing by itself; only an "
  "empty or truncated-on-open file is given a fresh empty header.",
  ["inputs"], "every 4096-byte block and every file length, each slot, boundary and wrap-around value",
  "The corrupt-header test flips one byte; slots, sums near the limit and 16/64-bit wrap need enumeration.",
  ["lib/bpak.c", "lib/pkg.c"], [("bpak_valid_header", "lib/bpak.c"), ("bpak_pkg_open", "lib/pkg.c")],
  "TLC enumerates all single and pairwise faults of well-formed bases; random headers on top. Undefined hash kinds are not judged.",
  None, ["return code, file bytes before and after"]),
P("C04", "Editing a package never loses, moves or alters another part",
  "Over any history of adding files, keys and hash-tree files, deleting parts (with or without their metadata), deleting all, "
  "closing and reopening, the file on disk holds the header followed by exactly the stored bytes of the live parts in order, zero padded, "
  "nothing behind. Extracting, hashing or asking the size of a part gives back what was added, and an operation that fails leaves the package as it was.",
  ["histories", "inputs", "fault_sequences"], "every edit history, file sizes around every chunk and alignment boundary, missing or unsuitable input files",
  "Tests perform one delete or one extract on fixed files of one size; packing after deletions of chunk-crossing parts and failed additions are never looked at.",
  ["lib/pkg.c", "lib/pkg_create.c"], [("bpak_pkg_add_file / add_file_with_merkle_tree / add_key", "lib/pkg_create.c"),
   ("bpak_pkg_delete_part / delete_all_parts / extract_file", "lib/pkg.c")],
  "Contents are compared by digest; histories come from a TLC-enumerated model and a seeded generator.",
  [("package file", "header and stored parts", "struct bpak_package.fp")], ["package file bytes after every operation", "extracted files"]),
P("C05", "The stored payload hash always matches the hashed parts",
  "After every operation that changes parts or the hash kind the payload hash on disk is the header's hash kind applied to the stored bytes "
  "(padding included) of the parts not excluded from hashing, in order. The header digest handed out for signing covers every header byte except "
  "the signature and its length, so it is unaffected by signatures and changes with any other byte.",
  ["histories", "inputs"], "every edit history with every mix of excluded, plain and transport-coded parts and all hash kinds",
  "Tests check a hash for one fixed layout; excluded parts between hashed ones, empty packages and chunk-crossing parts are not combined.",
  ["lib/verify.c", "lib/pkg.c"], [("bpak_verify_compute_payload_hash / bpak_verify_compute_header_hash", "lib/verify.c"), ("bpak_pkg_update_hash", "lib/pkg.c")],
  "SHA values are computed by Python's hashlib and enter as facts; which bytes in which order is decided by the specification.",
  None, ["payload hash on disk, digest returned"]),
P("C06", "Verification accepts exactly the packages the key's owner signed",
  "Verification with a public key succeeds if and only if the stored signature was made with the matching private key over this very header "
  "and the stored bytes of every hashed part still give the payload hash in it. Any change of a header byte, signature, signature length, "
  "hashed part byte or padding, any truncation, another key or a missing signature is refused; changes to excluded parts, or to the unused bytes of the signature field behind the signature, are not.",
  ["inputs", "histories"], "every position of every change, all key types and hash kinds, every history of signing, editing, re-signing and tampering",
  "Tests corrupt one byte at one place for one key type.",
  ["lib/pkg_verify.c", "lib/pkg_sign.c", "lib/verify.c", "lib/mbedtls_wrapper.c"], [("bpak_pkg_verify", "lib/pkg_verify.c"), ("bpak_pkg_sign", "lib/pkg_sign.c"),
   ("bpak_verify_payload", "lib/verify.c"), ("bpak_mbed_verify", "lib/mbedtls_wrapper.c")],
  "Cryptography is idealised: a signature is valid for exactly the header digest and key it was made with.",
  None, ["result of verification, package file"]),
P("C07", "Signatures can be produced outside and installed without loss",
  "A signature made elsewhere over the digest the library hands out, once installed as raw signature of up to 512 bytes, verifies, and a signature made here "
  "verifies elsewhere. Installing a signature touches nothing else; one that does not fit is refused without changing the package; taking the signature "
  "out of a header returns exactly the installed bytes and clears them.",
  ["inputs", "histories"], "every signature length 0..700, all key types, every order of install, take-out, edit and sign",
  "Tests run one openssl signature per key type; lengths at and beyond the limit and shorter-after-longer installs are not tried.",
  ["lib/pkg.c", "lib/bpak.c", "lib/pkg_sign.c", "src/sign.c"], [("bpak_pkg_write_raw_signature", "lib/pkg.c"), ("bpak_copyz_signature", "lib/bpak.c"), ("bpak_pkg_update_hash", "lib/pkg.c")],
  "openssl supplies and checks the outside signatures.", None, ["package file, result codes"]),
P("C08", "Hash trees are the dm-verity tree of the data, however it is fed in",
  "For any data that is a multiple of 4096 bytes and any salt, the produced tree consists of the salted SHA-256 of every data block, then of every block "
  "of the level below, zero padded to 4096, top level first, and the root hash is that of the top block (of the data block itself, when there is only one). The result and its size do not depend on how the data is cut into "
  "chunks; data of any other length, or less or more of it than announced, is refused.",
  ["inputs"], "all block counts up to several levels, all cuts, all salts",
  "Tests use one image fed in whole blocks.",
  ["lib/merkle.c", "lib/pkg_create.c"], [("bpak_merkle_init / write_chunk / finish / compute_size", "lib/merkle.c")],
  "Block hashes are computed by Python's hashlib and enter as facts; the tree is built by the specification.", None, ["tree bytes, root hash, sizes"]),
P("C09", "A data part with a hash tree is verified against tree, root and salt",
  "Verification of a payload with hash trees succeeds only if every part carrying a root hash has its salt and tree part, the tree is the tree of the data and "
  "the root is its root. Any changed data block, tree byte, root hash or salt, a missing salt or a missing tree part is refused (for a single data block, whose hash is the root, only that hash in the tree counts).",
  ["inputs", "fault_sequences"], "every changed block, tree level, root and salt byte, with the payload hash recomputed so that only the tree can tell",
  "The test corrupts one place, mostly caught by the payload hash first.",
  ["lib/verify.c", "lib/merkle.c"], [("bpak_verify_payload / bpak_verify_merkle_tree", "lib/verify.c")],
  "SHA-256 is idealised as collision free.", None, ["verification result"]),
P("C10", "Transport encoding followed by decoding gives back the same package",
  "For any package in which hash trees follow their data and any origin of the same package identity, encoding and then decoding with that origin gives a file with the original header and the original bytes of every "
  "part, whatever mix of diffed, data-removed, hash-tree-regenerated and plain parts and whatever compression. Parts without a coding are carried as they are, the signature still verifies afterwards, "
  "and the announced sizes are the real ones: that of the file before decoding, and of all parts with padding after.",
  ["inputs", "configurations"], "every assignment of codings to parts, all pairs of contents and lengths",
  "Tests run a few fixed images with one layout each.",
  ["lib/transport_encode.c", "lib/transport_decode.c", "lib/pkg.c"], [("bpak_transport_encode", "lib/transport_encode.c"), ("bpak_transport_decode_*", "lib/transport_decode.c")],
  "Contents are compared by digest.", None, ["encoded and decoded files"]),
P("C11", "Transport refuses the wrong origin and never passes off a wrong result",
  "Encoding or decoding a diffed part without an origin, with an origin of another package identity or lacking the part or the identity, or with an unknown coding, and decoding a "
  "truncated package, fails. Decoding a damaged package either fails or produces exactly what the coded data says. Decoding that reports success has produced parts of exactly the announced lengths, and each regenerated hash tree has the root hash recorded in the header.",
  ["inputs", "fault_sequences"], "every kind of mismatch, damage at every region",
  "Tests only decode what was just encoded with the right origin.",
  ["lib/transport_encode.c", "lib/transport_decode.c"], [("bpak_transport_decode_set_origin / decode_start / decode_finish", "lib/transport_decode.c"), ("transport_encode_part", "lib/transport_encode.c")],
  "Judged as accept/refuse plus produced files.", None, ["result codes, output file"]),
P("C12", "Patch application follows the patch format for every input and chunking",
  "Applying a patch yields the output the format defines from control triples, difference and extra bytes and origin, and the result does not depend on how the patch bytes are cut into calls nor on the buffer size. "
  "A patch that is cut off, has negative counts, reads outside the origin or is not valid compressed data is never reported as applied, and nothing outside the buffers is touched.",
  ["inputs", "schedules"], "every patch byte string over small alphabets, every chunking, every cut point",
  "Tests apply three known patches, whole.",
  ["lib/bspatch.c"], [("bpak_bspatch_init / write / final", "lib/bspatch.c")],
  "A byte-level state machine in TLA+ decides output and verdict.", None, ["output bytes, result of each call"]),
P("C13", "A part is marked decoded only once its data is completely written",
  "At every point of a decoding run, the header written to the output marks a transport coded part as decoded only if all the bytes of that part, as they will be in the end, have already been handed to the output. "
  "Cut off anywhere, the header still tells exactly which parts are complete, and no write ever goes outside the part being decoded.",
  ["crash_points", "fault_sequences"], "every prefix of the sequence of writes, every failing call",
  "Tests look only at finished runs.",
  ["lib/transport_decode.c"], [("bpak_transport_decode_start / write_chunk / finish", "lib/transport_decode.c")],
  "Crash points are prefixes of the recorded callback sequence.", None, ["sequence of output and header writes"]),
P("C14", "An I/O error is never reported as success",
  "If reading or writing fails or comes up short at any point of verification, hash-tree creation, diffing, patching or transport decoding, the operation reports failure. "
  "Without a failure the same calls succeed. A command of the tool that exits with 0 although a system call failed, or the disk or the output is full, has produced the very files and output of an undisturbed run.",
  ["fault_sequences"], "every callback invocation and every system call on the files at hand failing or short, one at a time; every file size limit",
  "No test injects a fault.",
  ["lib/verify.c", "lib/merkle.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/transport_decode.c", "lib/pkg.c", "src/main.c"], [("callback result checks", "lib/*.c"), ("stdio result checks", "lib/pkg*.c, lib/transport_encode.c, src/*.c")],
  "Every single fault point of the chosen runs is enumerated.", None, ["result codes under injected faults", "exit status, files and output of the tool under system call faults"]),
P("C15", "Keystore lookups return the requested key or nothing",
  "Loading a key from a keystore package succeeds only if the package is well formed, its keystore id is the wanted one, the caller's header check agrees and a part with the key id holds a supported public key, and then returns exactly that key. "
  "A keystore in memory hands out a key only when marked verified and only the one with the id asked for. The C source generated from a keystore package defines a keystore with the id of the package and exactly its keys, or nothing is generated.",
  ["inputs", "histories"], "every combination of ids, missing pieces, key types and damaged parts, all key orders",
  "Tests load one key of one type from one generated keystore.",
  ["lib/keystore.c", "lib/keystore_load_from_file.c", "lib/mbedtls_wrapper.c", "src/generate.c"], [("bpak_keystore_load_key_from_file", "lib/keystore_load_from_file.c"), ("bpak_keystore_get", "lib/keystore.c")],
  "Key material is compared byte by byte with openssl's encoding.", None, ["result codes, key bytes"]),
P("C16", "Identifiers and their printed forms are consistent",
  "The id of a name is its CRC-32 (zero start value, no final inversion), the id of the hash-tree part of a part equals the id of its name with '-hash-tree' appended, and looking up the data part of a hash tree is the inverse on any header. "
  "Converting metadata and binary data to text gives the documented form and never exceeds the buffer given.",
  ["inputs"], "all names, ids and buffer sizes",
  "Tests compare a few fixed names.",
  ["lib/id.c", "lib/utils.c", "lib/bpakcrc.c"], [("bpak_id / bpak_part_id_to_hash_tree_id / bpak_hash_tree_id_to_part_id", "lib/id.c, lib/utils.c"), ("bpak_bin2hex / bpak_meta_to_string", "lib/utils.c")],
  "The CRC is defined bitwise in TLA+.", None, ["returned values, buffers"]),
P("C17", "The command-line tool edits a package like a map, without collateral",
  "Every create, add, set, delete, sign, verify, extract, transport and show command changes only what it is asked to change, leaves a package whose payload hash is current, "
  "and exits with 0 exactly when it did what was asked. A refused command leaves the package file unchanged, and what show prints is what the header holds.",
  ["histories", "inputs"], "every history of commands over a small set of names and files",
  "The shell tests run one straight line of commands per feature.",
  ["src/add.c", "src/set.c", "src/delete.c", "src/create.c", "src/show.c", "src/extract.c", "src/sign.c", "src/transport.c"], [("action_* entry points", "src/*.c")],
  "The same package specification as C04-C06 judges the file after each command.", None, ["exit status, output, package file"]),
P("C18", "Compare reports exactly the differences of two packages",
  "Comparing two packages reports a difference for exactly those metadata entries and parts that differ in presence, content or description (sizes, padding, flags), on the correct side, and nothing for those that are equal (whether a part that only lies at another offset counts as different is left open). "
  "A comparison that cannot read what it needs fails. Comparing never modifies either file.",
  ["inputs"], "every pair of packages over a small set of entries and parts",
  "No test checks the output of compare.",
  ["src/compare.c"], [("action_compare", "src/compare.c")],
  "All pairs of small packages from the specification.", None, ["output of bpak compare"]),
P("C19", "Diffing and patching are inverse for any two byte strings",
  "For any origin and target, including empty, equal, disjoint and repetitive ones, and every compression, the produced patch applied to the origin gives the target byte for byte, and diffing never reads outside its inputs.",
  ["inputs"], "every pair of short strings over small alphabets, larger structured pairs",
  "Tests diff four fixed image pairs.",
  ["lib/bsdiff.c", "lib/bspatch.c", "lib/sais.c"], [("bpak_bsdiff_init / bpak_bsdiff", "lib/bsdiff.c"), ("bpak_bspatch_*", "lib/bspatch.c")],
  "The patch format semantics of C12's specification interprets the produced patch.", None, ["patch bytes, patched output"]),
P("C20", "The Python objects behave like one package, and never bring down the program",
  "Every program against the Python module sees what the file has: what Package, Part and Meta objects answer is always the state left by the statements before it, an object keeps naming its entry when that is renamed, and is an error after that is deleted. "
  "A statement that cannot be carried out (a value of the wrong type or out of range, a missing or duplicate entry, id 0, a package that is closed or open only for reading) raises an exception and changes neither objects nor file, and no statement crashes the interpreter. "
  "The file is closed with close(), the end of a with block, or the last reference.",
  ["histories", "inputs"], "every sequence of statements over a few names and objects, values of all types and sizes",
  "The Python tests follow one good path per method.",
  ["python/package.c", "python/part.c", "python/meta.c", "python/python_wrapper.c"], [("package_methods, package_getset", "python/package.c"), ("meta_getset", "python/meta.c"), ("part_getset", "python/part.c"), ("m_transport_encode, m_transport_decode", "python/python_wrapper.c")],
  "The abstract package of C04 to C06 with objects as names into it judges each statement.", None, ["attribute values, exceptions, package file"]),
P("C21", "Operations give back what they take, and a refused allocation is a failure",
  "A program may install its own allocator: all memory the library asks for on its own comes from it, and goes back to it and nothing else. After every operation, whether it succeeded or failed at whatever point, nothing is held but the file of each open package and the memory of each key handed out: no file descriptor, mapping or memory stays behind, so that repeating operations never lets them grow; likewise for statements against the Python module. "
  "When the allocator refuses any one request, the operation does not crash: it reports failure and leaves the package file as it was, or succeeds with the outcome it has otherwise.",
  ["faults", "histories", "inputs"], "each request of each operation, over good and bad inputs; repetition without end",
  "No test lets an allocation fail, installs an allocator or counts what is held.",
  ["lib/mem.c", "lib/pkg.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/mbedtls_wrapper.c", "lib/keystore_load_from_file.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/transport_encode.c", "lib/transport_decode.c", "python/package.c"],
  [("bpak_set_calloc_free, bpak_calloc, bpak_free", "lib/mem.c"), ("error paths", "lib/pkg_create.c"), ("compressor_init", "lib/bsdiff.c"), ("decompressor_init", "lib/bspatch.c"), ("transport_bsdiff", "lib/transport_encode.c")],
  "The specification says what is held between operations; recorded operations are checked against it.", None, ["allocator calls, open files, mappings, heap in use, return values, package file"]),
P("C22", "Hash and key functions of a program's own do all the hashing, signing and key reading",
  "A program may install its own functions for hashes (bpak_hash_setup) and for signatures and keys (bpak_crypto_setup). From then on every digest, signature and parsed key of packages, hash trees and verification is that of the program's functions over the same bytes as with the built-in ones. Each hash the library starts is fed, finished and let go, in that order, exactly once, and none is used afterwards - also when the operation fails at whatever point. "
  "When one of these functions refuses a request, even after writing into its output, or there are none, the operation that needs it fails, and the package file and what the open package answers stay as they were; an operation that does not need it is not affected.",
  ["faults", "histories", "inputs"], "each request of each operation, over good and bad inputs; histories of operations with refusals anywhere",
  "The tests use only the built-in mbedTLS functions, which neither fail nor notice that a context is used twice or never freed.",
  ["lib/crypto.c", "lib/pkg.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/pkg_verify.c", "lib/merkle.c", "lib/verify.c", "lib/keystore_load_from_file.c"],
  [("bpak_hash_setup / bpak_crypto_setup and their dispatch", "lib/crypto.c"), ("payload hash, header hash", "lib/pkg.c"), ("hash contexts per tree level", "lib/merkle.c"), ("bpak_pkg_sign", "lib/pkg_sign.c")],
  "The package specification runs over the program's own digests; the life of each hash is a small machine every recorded hash is checked against.", None,
  ["calls of the program's functions", "return values", "package file", "open package"]),
P("C23", "Objects at work at the same time do not touch each other",
  "A program may have any number of open packages, headers, hash trees being written or verified, differences being made or applied, packages being decoded and keys being looked up at once, and go on with any of them at any time: between calls, inside the callbacks of another object's operation (reading, writing, hashing, checking a header), or in another thread. "
  "Whatever the interleaving, each object answers every call, and leaves behind in its files and outputs, exactly what it would with nothing else at work: that depends on the object's own history and on nothing that happened to others before or meanwhile.",
  ["schedules", "histories", "inputs"], "interleavings of two and more objects of every kind, switching at every call out of the library",
  "No test has two operations in progress at once; a buffer or a variable shared between operations never shows there.",
  ["lib/pkg.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/merkle.c", "lib/verify.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/transport_encode.c", "lib/transport_decode.c", "lib/keystore_load_from_file.c", "lib/bpak.c", "lib/mbedtls_wrapper.c"],
  [("payload chunk buffers", "lib/verify.c"), ("copy buffers", "lib/pkg_create.c"), ("context structures", "include/bpak/bsdiff.h"), ("decoder contexts", "lib/transport_decode.c")],
  "Each object's answers alone define a machine; recorded interleavings are checked to be runs of these machines side by side.", None,
  ["return values", "outputs", "package files", "order of completion"]),
]
NOT_APPLICABLE = {}
