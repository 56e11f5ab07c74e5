claim("C01", "proof",
    ["Bitmap: Collection::view/owned/len (bitmap/mod.rs)", "BitUnpacked::next/size_hint through IntoIterator (bitmap/unpacked.rs)", "Bitmap::iter_views", "Bitmap::into_iter_owned"],
    "Indexed and owned reads are proved for every buffer (up to 2^40 bytes), length, offset and index. Every way of iterating is proved for ten items from any byte on (any remaining bytes, offset up to 8, any length), which covers each state of the unpacking iterator; longer iterations follow by induction over the bytes, larger offsets by the contract of Iterator::skip. Whole iterations are bounded (seven shapes, every content) and executed in mixed ways (nth, skip, step_by, folds) on six storages.",
    ["core::iter::Skip and Take follow their documented contracts for any count"])
claim("C02", "proof",
    ["Bitmap::try_from_parts", "Bitmap::into_parts", "Bitmap::bit_offset"],
    "Acceptance, error values and decomposition are proved for every buffer up to 2^40 bytes and every pair of machine integers; array buffers bounded, vectors executed.")
claim("C03", "proof",
    ["Bitmap: Extend::extend", "CollectionRealloc::try_extend", "FromIterator", "from_iter_in", "try_from_iter_in", "BitPacked::next (bitmap/packed.rs)"],
    "Appending one and two items to an arbitrary packed collection (any bytes up to 2^40, any stale bits, offset, length) is proved complete; longer appends follow by repeating the step only when items are appended one call at a time, so appends of several items in one call and collects are bounded (up to 9 items over every content of the listed shapes) and executed up to 2200 items.")
claim("C04", "proof",
    ["ValidityBitmap::is_valid/is_null/any_null/any_valid/all_null/all_valid/null_count/valid_count (bitmap/validity.rs)", "Bitmap::count_ones", "Validity: ValidityBitmap impl"],
    "Per-position answers and the absent bitmap are proved for every buffer up to 2^40 bytes; the population counts and the answers derived from them are proved with a loop invariant for any number of bytes up to 2^32, any bits and offset; any_null is bounded (1 to 3 bytes) and everything is executed up to 140000 bytes.",
    ["the loop rule (tools/extract_loops.py) is applied to a copy extracted on every run; the sum of set bits is a ghost sequence defined by its recursion"])
claim("C05", "proof",
    ["Validity::try_from_parts/from_collection/into_parts", "Validity: Collection::view/owned/len", "ValidityIter", "Validity::iter_views/into_iter_owned"],
    "Construction, decomposition and indexed reads are proved for any values and any bitmap; iteration is proved for ten items from any byte on, at offsets 0 and 5, and without bitmap; whole iterations are bounded (up to 8 positions, every validity) and executed in mixed ways (nth, skip, folds) over seven value kinds.")
claim("C06", "proof",
    ["Validity: Extend::extend", "CollectionRealloc::try_extend/reserve/try_reserve", "materialize_bitmap/try_materialize_bitmap", "Bitmap::all_set_in"],
    "Reservation never changes a position: proved for any state and any failure. Appends are bounded (up to 8 stored positions, 2 to 4 appended, every content) and executed in histories up to 3300 items per call, over the internal batch size.")
claim("C07", "proof",
    ["Offsets::try_from_parts", "Offsets::into_parts"],
    "Proved with a loop invariant for any number of 32-bit and 64-bit offsets up to 2^30 and any child length: acceptance, and each error with its position and numbers. Also complete over every content of up to 4 (thorough: 7) offsets without the extraction, and executed up to 140000 offsets in four storages.",
    ["the loop rule (tools/extract_loops.py) is applied to a copy extracted on every run"])
claim("C08", "proof",
    ["Offsets: Collection::view/owned/len/iter_views", "OffsetView: Collection, PartialEq", "OffsetIntoIter::next/len"],
    "Reads of any list and any item, iteration steps from any state and owned lists are proved for any number of lists, any valid offsets and any child length; comparison is bounded to 5 items and executed.")
claim("C09", "proof",
    ["Offsets: Extend::extend", "CollectionRealloc::try_extend", "Offset::strict_add/as_usize"],
    "Appending one or two lists of any length to any valid state, offset overflow included, is proved; three lists in one call is bounded and longer appends are executed.")
claim("C10", "proof",
    ["Flatten: TryFrom/into_inner, Collection, CollectionRealloc, Extend", "FlattenView", "FixedSizeList layout", "ArrayChunks"],
    "Construction, reads, iteration steps and appends of one or two lists are proved for any child and any index at widths 1 to 5; collects are bounded to 2 lists; widths up to 8 executed.",
    ["widths are const generics: proofs are per instantiated width (0, 1, 2, 3, 5)"])
claim("C11", "proof",
    ["Bitmap::truncate", "Validity::truncate", "Offsets::truncate", "Flatten::truncate", "Vec::truncate"],
    "Truncation to any k of any state is proved for bitmaps, nullable, variable-size and fixed-size collections; later appends are proved for lists and bounded for bits and nullable values, executed over sixty types.")
claim("C12", "proof",
    ["CollectionRealloc::try_extend of Bitmap, Validity, Offsets, Flatten, Vec"],
    "A refused append of one item (two for values under validity) leaves any state unchanged: proved. Longer appends refused at each later growth are bounded and executed over sixty types, also with the real allocator refusing.")
claim("C13", "proof",
    ["Extend::extend and try_extend of Bitmap, Validity, Offsets, Flatten; reads of collections left behind"],
    "Every state a panic can leave (values beyond the validity, child items beyond the last offset, incomplete groups) is characterised and reads and appends from all such states are proved; that a panic at item k leaves such a state is bounded (observed inside the source at each item) and executed over sixty types.",
    ["a panic is observed at the call of the source's next, where the collection is inspected: unwinding itself is outside the verifier"])
claim("C14", "proof",
    ["size_hint/len of BitUnpacked, ValidityIter, OffsetIntoIter, Flatten iterators, slices, BitPacked"],
    "Exact bounds before and after the first steps are proved for any collection state; the remaining steps follow by the state invariants for lists and fixed-size lists and are executed for all sixty types at every point of mixed iteration.")
claim("C15", "proof",
    ["Array, FixedSizePrimitive, Boolean, FixedSizeList, VariableSizeList: Collection, CollectionRealloc, from_buffer/into_buffer", "FromIterator, from_iter_in, try_from_iter_in of every layout", "Nullability::Collection"],
    "Wrapping: reads, consuming iteration, growth and taking out of every layout are proved to be those of the memory inside, for any memory (up to 2^40 items). Collecting is the appends of C03, C06, C09 and C10 into an empty collection; the constructors themselves are bounded (listed shapes, every content) and executed over sixty item types, nesting and storages with sources announcing exact, low and loose bounds.")
claim("C16", "proof",
    ["reserve/try_reserve/with_capacity/try_with_capacity of Bitmap, Validity, Offsets, Flatten", "Array and layouts (executed)"],
    "Requests are proved for any state, any request and any refusal: contents unchanged, an error rather than a panic, and enough room asked from each storage. That appends then ask no more is bounded (five shapes) and executed over sixty types with instrumented storages.")
claim("C17", "proof",
    ["narrow-ffi Export::export for primitive, boolean, fixed-size list and variable-size list layouts, nullable and not", "ArrowArray/ArrowSchema construction (export.rs, ffi.rs)"],
    "Proved for any contents and length of the storages, with no validity or a bitmap at any bit offset (refused). Null counts of stored bitmaps are bounded (up to 16 positions, every validity); 37 item types in six storages are executed and read by an independent consumer.",
    ["Kani verifies a copy extracted on every run: C string literals and one format string are replaced (DESIGN.md)", "destructors of child structures are left out of the nested obligations (their contract is C20)"])
claim("C18", "proof",
    ["narrow-ffi Import::import for primitive, boolean, fixed-size list and variable-size list layouts, nullable and not", "schema and array checks of import.rs"],
    "Any structure: each field symbolic, every pointer null, misaligned or to storage of any length. Acceptance and the error reported are proved against the documented order for all layouts but lists (up to 3 lists) and counted nulls (up to 11 items); format strings are bounded to 3 or 6 characters in separate obligations. 37 item types with one or two fields changed at any level are executed.",
    ["Kani verifies a copy extracted on every run: C string literals and one format string are replaced (DESIGN.md)", "destructors of imported structures are left out (their contract is C20)"])
claim("C19", "proof",
    ["Export::export then Import::import of every layout"],
    "Round trips are proved for any flat values, packed booleans, values without bitmap and fixed-size lists; stored validity is bounded to 8 positions and lists to 2. 37 item types in six storages, also after histories of appends, truncations and panicking sources, are executed and refused as other types.",
    ["Kani verifies a copy extracted on every run: C string literals and one format string are replaced (DESIGN.md)", "destructors are left out (their contract is C20)"])
claim("C20", "proof",
    ["release callbacks of exported arrays and schemas", "Drop for ArrowArray and ArrowSchema", "Export::export error paths"],
    "Storage that counts its own drops: releasing by callback or by dropping, in either order, after a move, frees it exactly once, for any contents; nested levels are proved with the destructor of the child replaced by one that counts, the destructor itself being proved to call the callback once. Histories of moves, reads, releases and children taken out are executed over 37 item types in six storages with every freed byte ruined and every allocation counted.",
    ["Kani verifies a copy extracted on every run: C string literals and one format string are replaced (DESIGN.md)"])
claim("C21", "proof",
    ["Nullability::map/zip/zip_with of NonNullable and Nullable"],
    "Complete: any items, any absences, any function (result, argument and number of calls observed), owned items dropped once.",
    ["generic code is proved at the instantiated item types; it cannot inspect its type parameters"])
