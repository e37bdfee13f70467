"""Which contract units decide which property, and what each leaves unproved."""
UNITS = {
    "C01": ["grid"],
    "C02": ["coords"],
    "C03": ["boxes"],
    "C04": ["coords", "chunks", "regions"],
    "C05": ["coords", "chunks", "regions"],
    "C06": ["elems"],
    "C07": ["chunks"],
    "C08": ["codecs", "pure"],
    "C09": ["dtype"],
    "C10": ["keys", "nodes", "files"],
    "C11": ["within"],
    "C12": ["nodes"],
    "C13": ["nodes"],
    "C14": ["nodes", "files"],
    "C15": ["listing"],
    "C16": ["nodes", "files"],
    "C17": ["files"],
    "C18": ["nodes", "chunks", "listing"],
    "C19": ["sharing"],
    "C20": ["crash", "chunks", "nodes"],
    "C21": ["docs", "dtype", "codecs", "pure"],
}
# Assumptions of the contracts, per unit: trusted shims, assumed contracts on dependencies, machine facts.
COMMON = [
    "the extraction rules of extract/src/tr.rs preserve meaning: iterator chains become index loops, combinators become match, macros become calls, SmallVec (CoordVec) becomes Vec",
    "usize is 64 bits wide (global size_of usize == 8)",
    "rustc, Verus 0.2026.09.13 with its Z3, and vstd's specifications of the standard library",
]
TRUSTED = {
    "strings": ["shims of contracts/strings.vrs: str equality, starts_with, byte length (UTF-8 encoding), slicing after one-byte characters"],
    "types": ["the sizes of f16, f32 and f64 (checked by rustc)"],
    "streams": ["contracts/streams.vrs: std's read_exact and write_all (a reader yields its bytes in any split and then ends or fails for good; errors that may be retried are retried)"],
    "codecs": ["the libraries bzip2, flate2, lz4 and xz2: given legal parameters, their decoder yields what their encoder was given (axiom lossless), completing the stream on drop (for lz4: on finish); a Vec<u8> accepts every write",
               "serde's externally tagged form of CompressionType (only executed)"],
    "dtype": ["usize::from_str accepts exactly an optional plus sign and decimal digits of a machine word (vx_parse); char::encode_utf8, str::from_utf8 on ASCII bytes; Write for &mut [u8] and the decimal Display of usize (vx_cursor_*)",
              "serde: a visitor's visit_str gets the whole string, a serializer's serialize_str prints it (the serde side of Deserialize/Serialize, including the derive on ExtensibleDataType, is only executed)"],
    "paths": ["shims of contracts/paths.vrs: String::push_str/push, Display of u64 and str, str::trim_*_matches and strip_*; std::path on Unix for paths that end in a name: join, extension, set_extension, with_extension, to_str"],
    "comps": ["shims of contracts/comps.vrs: Path::components on Unix (an optional root, an initial '.', then the non-empty segments other than '.'), Components::next and as_path, Path::has_root"],
    "io": ["io::Error carries the kind it is made with"],
    "meta": ["serde_json::Value is a tree of objects, arrays and leaves"],
    "json": ["shims of contracts/json.vrs: serde_json maps are determined by their entries and behave as maps; parsing inverts printing for JSON values (not for floats serde_json cannot print exactly); derived Serialize/Deserialize of the metadata structures are functions of the value (array_parse, array_print, group_print)"],
    "store": ["contracts/store.vrs: the store is any implementation of the store traits that acts as a map from keys to byte strings (exists, get, uri, set, erase, erase_prefix), never hides a failure of the function given to `set`, and counts failures in a ghost flag; the filesystem store is shown to be one under C17 on canonical keys (lemmas map_one and map_prefix of contracts/files.vrs)", "serde_json::from_reader reads a whole stream and reports its failures; to_writer reports failed writes"],
    "version": ["str::rsplit('/').next() is the last segment; semver's VersionReq::parse is a function of the text, matches a function of the requirement and the release; the requirement 3.0 admits 3.0.0"],
    "files": ["contracts/files.vrs: the operating system's file operations as std and walkdir present them, on a tree of named nodes: metadata, exists, open (with create, without truncation), locks, set_len, buffered reading and writing (only what is flushed is sure to arrive), create_dir_all, remove_file, remove_dir (of empty directories only), read_dir (each child once), WalkDir (each node once, with contents_first children before parents); nothing else changes the files meanwhile; links are followed lexically; names are UTF-8; the system takes no paths deeper than 4096 names",
              "the function given to `set` is any function that writes and flushes some bytes or fails; entry points without extensions are read as they were printed (serde_json)",
              "the tree has finitely many directories (so that list and list_prefix end)"],
    "listing": ["contracts/listing.vrs: String's len, truncate and drain count UTF-8 bytes; str::ends_with; Vec's sort, dedup, drain and extend (dedup drops what equals its predecessor)", "metadata_key_suffix contains no '/'"],
    "nodes": ["metadata_key_suffix contains no '/'", "no proper beginning of a JSON object's text parses (axioms torn_array, torn_object; used for C20 only)"],
    "sharing": ["contracts/sharing.vrs: advisory locks as flock(2) describes them: they are waited for, exclude each other across handles, threads and processes, belong to the open file and go when it is closed",
                "every process that changes the hierarchy's files does so through this crate (or keeps its rule: bytes are changed under the exclusive lock only, and a whole value is there when it is given up); the functions given to `set` do not fail midway",
                "std's BufReader and BufWriter keep their file open as long as they live; a value is written by the function given to `set` before it returns",
                "a key that is written for the first time may be read as empty until its writer holds the lock"],
    "crash": ["contracts/crash.vrs: when a process stops, what its system calls have done stays done, in their order (not so when the machine loses power); a write that is cut off leaves a beginning of its bytes; ftruncate, and opening with O_CREAT or O_TRUNC, are done or not done",
              "BufWriter and the function given to `set` write the bytes of the value in order, from the beginning"],
    "pure": ["the library lz_fear (feature lz_pure): given a legal block size its reader yields what its compressor was given; without a readable header there is nothing to decode; writing to memory succeeds"],
    "docs": ["serde's derive macros generate what serde documents (extract/src/derive.rs): a structure is an object of its fields under their names, rename, rename_all, default, skip_serializing_if; adjacently tagged and untagged enums; missing fields are errors unless optional or defaulted, unknown fields are ignored; an attribute without a rule makes the item undecided",
             "serde_json and serde on leaves (shims of contracts/docs.vrs): strings, booleans, integers and null are disjoint kinds of leaves, integers are read within their type's range, Option, Vec and maps as serde documents; what serde reads from other forms (the fields of a structure as an array, a codec tag as an object) is some function of the document; a document's text is read as the document"],
    "errors": [],
    "elems": ["byteorder's read_*_into and write_*_into read and write the words of a slice in the given byte order (shims VxReadNums, VxByteOrder of contracts/elems.vrs); half's f16 byte conversions; AsMut and AsRef of a container show the same elements; slices' chunks and chunks_mut; `bool as u8` is 0 or 1"],
    "chunks": ["Vec::resize_with gives the length asked for; Vec::extend_from_slice, Option::transpose; decoders stream: what a part of a stream decodes to is a part of what the whole does (axiom streaming)", "chunks have fewer than 2^32 elements"],
    "regions": ["ndarray (contracts/regions.vrs): arrays and views are functions from positions to elements; from_elem, from_shape_vec and ArrayView::from_shape in row- or column-major order, slice and slice_mut, assign of equal shapes, t, iter in row-major order, as_slice only where that is the memory order; sizes are at most isize::MAX; mutable views are references to what they show",
                "serde_json::from_value::<T> is a function of the JSON value; Clone gives an equal value; Vec::resize and Vec::extend; GridCoord::from(&[u64]); PartialEq of BoundingBox compares offsets and shapes",
                "arrays whose chunk grid can be enumerated with 64 bits, array shape + chunk shape < 2^64, chunks of fewer than 2^32 elements, separators '/' and '.'; a region's end fits in 64 bits; the offset has the rank of the values"],
    "keys": [], "within": ["keys have fewer than 2^31 - 3 names (get_path counts in i32)", "symbolic links inside the hierarchy are out of scope: paths are resolved lexically"],
    "grid": ["vx_repeat (vec![x; n]) and vx_max/vx_min (std::cmp) have the specifications written in contracts/base.vrs"],
    "boxes": ["ndarray's SliceOrIndex constructors mean what ndarray documents"],
    "coords": ["itertools' multi_cartesian_product over ranges yields the Cartesian product in row-major order (vx_multi_product) and Fuse keeps it; ranks of zero yield nothing"],
}
INCLUDES = {"sharing": ["within", "json", "errors"], "crash": ["within", "json", "errors"], "docs": ["json", "codecs", "dtype"], "errors": [], "elems": ["types", "errors", "streams"], "chunks": ["keys", "codecs", "elems", "grid", "store"], "dtype": ["strings", "types"], "types": ["meta"], "streams": ["io"], "codecs": ["meta", "paths", "streams"], "paths": ["strings"], "comps": ["paths"], "keys": ["paths"], "within": ["comps", "io", "meta"], "version": ["paths"], "listing": ["keys", "files"], "regions": ["chunks", "coords"], "files": ["within", "json", "errors", "version"], "meta": [], "json": ["meta", "paths", "io"], "store": ["json", "streams"], "nodes": ["keys", "store", "version"], "grid": [], "boxes": ["grid"], "coords": ["boxes", "grid"]}
# What the contracts do not reach, per property: decided only by the bounded replay crate.
GAPS = {
}


def trusted_base(units):
    out, seen = list(COMMON), set()
    def add(u):
        if u in seen:
            return
        seen.add(u)
        for i in INCLUDES.get(u, []):
            add(i)
        out.extend(TRUSTED.get(u, []))
    for u in units:
        add(u)
    return out


# Properties whose contracts do not cover the whole statement: reported as bounded exploration with proofs.
PARTIAL = set()

# Notes for MANIFEST.json.
NOTES = {}
