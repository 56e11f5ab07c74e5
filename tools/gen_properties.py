#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state, observe_at, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=[observe_at], hook_needed=hook)))

p("C01", "Packed booleans read back the same bits however they are read",
  "For every packed boolean collection, reading position i by index, through borrowed iteration, through owned access and through consuming iteration all give the bit stored at bit (offset + i) of the byte buffer, least significant bit first, for exactly the positions below the length. Reading any position at or beyond the length gives nothing, for every index up to the largest machine integer. Padding bits before the offset and after the end never influence a result.",
  ["inputs"], "all byte buffers, bit lengths, bit offsets and indices",
  "Unit tests use a handful of byte patterns and offsets; the guarantee ranges over every offset modulo and beyond a byte, every length and every padding content.",
  ["src/bitmap/mod.rs", "src/bitmap/unpacked.rs"],
  [("indexed read", "src/bitmap/mod.rs: Collection::view, bit_index, byte_index"), ("bit unpacking iterator", "src/bitmap/unpacked.rs"), ("borrowed and consuming iteration", "src/bitmap/mod.rs: IntoIterator impls")],
  [("buffer/bits/offset", "bytes, logical length, leading bit offset", "src/bitmap/mod.rs: struct Bitmap")],
  "return values of the public read operations")

p("C02", "Raw bitmap parts are accepted exactly when they fit, and come back intact",
  "Building a packed boolean collection from a byte buffer, a bit length and a bit offset succeeds exactly when offset plus length does not exceed eight times the number of bytes, including when the sum overflows a machine integer, and otherwise reports the three requested numbers. A successful construction keeps the buffer, length and offset unchanged, and decomposing the collection returns them unchanged. No position accepted as in range ever lies outside the buffer.",
  ["inputs"], "all byte buffers (any size), all lengths and offsets of the full machine integer range",
  "Tests try a few small numbers; overflow of offset + length and sizes near the machine limits are unreachable by sampling.",
  ["src/bitmap/mod.rs"], [("validation", "src/bitmap/mod.rs: try_from_parts"), ("decomposition", "src/bitmap/mod.rs: into_parts, bit_offset")],
  [("buffer/bits/offset", "invariant offset+bits <= 8*bytes", "src/bitmap/mod.rs: struct Bitmap")],
  "result of construction and decomposition")

p("C03", "Appending booleans keeps old bits and appends exactly the new ones",
  "Collecting booleans into packed form stores item i at bit i, least significant bit first, in exactly the number of bytes needed, with the unused bits of the last byte zero. Appending n booleans to any packed collection, whatever its offset, length, stale bits after its end or spare bytes after its end, leaves every earlier position unchanged and makes the n new positions read back the appended values in order, by the fallible and by the infallible operation alike. An iterator's items after its first end-of-sequence are never taken.",
  ["inputs", "histories"], "all starting states (offset, length, spare bytes, stale content) and all appended sequences",
  "Tests exercise a few offsets and lengths; stale bits, spare bytes and partially filled last bytes combine with every append length.",
  ["src/bitmap/mod.rs", "src/bitmap/packed.rs"],
  [("append", "src/bitmap/mod.rs: Extend::extend, CollectionRealloc::try_extend"), ("collect", "src/bitmap/mod.rs: FromIterator, from_iter_in, try_from_iter_in"), ("bit packing", "src/bitmap/packed.rs")],
  [("padding", "bits and bytes beyond the logical end are unspecified and must be overwritten", "src/bitmap/mod.rs: struct Bitmap")],
  "contents read back after an append; raw bytes after a collect")

p("C04", "Null and valid counts equal the number of cleared and set validity bits",
  "For every nullable collection the null count is the number of positions whose validity bit is zero, the valid count is the number of positions whose validity bit is one, and they add up to the length; padding bits before the offset and after the end are never counted. An absent validity bitmap means no nulls. The any/all null and any/all valid questions and the per-position null and valid answers agree with those counts, and out-of-range positions give no answer.",
  ["inputs"], "all validity bitmaps, offsets, lengths and padding contents",
  "Tests count a few bytes; masking errors appear only for specific combinations of start bit, end bit and number of bytes.",
  ["src/bitmap/validity.rs", "src/bitmap/mod.rs", "src/validity.rs"],
  [("population count with masks", "src/bitmap/mod.rs: count_ones"), ("null accounting", "src/bitmap/validity.rs: ValidityBitmap")],
  [("validity bitmap", "one bit per position, or absent when all are valid", "src/validity.rs: struct Validity")],
  "counts and predicates of the validity interface")

p("C05", "A nullable collection pairs each value with its own validity bit",
  "Combining values with a validity bitmap succeeds exactly when both have the same length, otherwise it reports both lengths, and a successful combination decomposes into the same values and bitmap. In every nullable collection, position i reads as the i-th value when validity bit i is set or no bitmap is stored, as null when the bit is clear, and as nothing beyond the length; indexed reads, borrowed iteration, owned reads and consuming iteration agree for every position.",
  ["inputs"], "all value collections, validity bitmaps (with any offset) and indices",
  "Tests use short collections without bitmap offsets; alignment must hold for every length, offset and index.",
  ["src/validity.rs"],
  [("construction and decomposition", "src/validity.rs: try_from_parts, from_collection, into_parts"), ("reads", "src/validity.rs: Collection::view, ValidityIter")],
  [("collection/bitmap", "row-aligned values and optional validity", "src/validity.rs: struct Validity")],
  "values read from the nullable collection")

p("C06", "Appending nullable items keeps values and validity aligned",
  "Appending any sequence of present and absent items to a nullable collection, with or without a stored bitmap, leaves every earlier position unchanged and makes the new positions read back exactly the appended items in order, however many items are appended at once and by the fallible and infallible operation alike. When no bitmap was stored, positions that existed before stay valid. Reserving or failing to reserve capacity never changes a position.",
  ["inputs", "histories"], "all starting states and appended sequences, including lengths around the internal batch size",
  "Tests append a few items; batch boundaries, implicit bitmaps and starting bit positions interact only at specific lengths.",
  ["src/validity.rs", "src/bitmap/mod.rs"],
  [("append in batches", "src/validity.rs: Extend::extend, try_extend, VALIDITY_CHUNK"), ("implicit to explicit validity", "src/validity.rs: materialize_bitmap, try_materialize_bitmap; src/bitmap/mod.rs: all_set_in")],
  [("collection/bitmap", "row-aligned values and optional validity", "src/validity.rs: struct Validity")],
  "items read back after an append")

p("C07", "List offsets are accepted exactly when they are valid, with the right diagnosis",
  "Building a variable-size list collection from child data and an offsets buffer succeeds exactly when the buffer is non-empty, starts at zero, never decreases, contains no negative entry and ends at or before the child length. Otherwise the reported error names the first failing condition in buffer order with its position and numbers, a last offset beyond the child being reported only when everything else is right. A successful construction decomposes into the same data and offsets.",
  ["inputs"], "all offsets buffers and child lengths, for 32 and 64 bit offsets",
  "Tests feed one example per error; acceptance is a condition over every element of buffers of any length.",
  ["src/offset.rs"], [("validation", "src/offset.rs: Offsets::try_from_parts"), ("decomposition", "src/offset.rs: into_parts")],
  [("offsets", "non-empty, zero-based, monotonic, bounded by the child length", "src/offset.rs: struct Offsets")],
  "result of construction and decomposition")

p("C08", "Every list reads as exactly its own slice of the child data",
  "In every variable-size list collection, list i consists of exactly the child items from its start offset up to its end offset, in order, whether obtained by index, by borrowed iteration, as owned values or by consuming iteration, and comparing a list with another collection is true exactly when lengths and items agree. Asking for a list or for an item inside a list at any position out of range gives nothing and never panics, for every index up to the largest machine integer.",
  ["inputs"], "all valid offsets, child contents and indices",
  "Tests read small in-range positions; the extreme indices and arbitrary offset shapes are never sampled.",
  ["src/offset.rs"], [("list views", "src/offset.rs: Offsets::view, OffsetView"), ("iteration", "src/offset.rs: iter_views, OffsetIntoIter")],
  [("data/offsets", "flat child plus boundaries", "src/offset.rs: struct Offsets")],
  "lists and items read from the collection")

p("C09", "Appending lists keeps old lists and appends exactly the new ones",
  "Appending lists to a variable-size list collection leaves every earlier list unchanged and makes the new positions read back exactly the appended lists in order, even when the child data had an unreferenced suffix, which is discarded first. The offsets stay valid after every append. A total child length that does not fit the offset type is reported (a panic for the infallible operation, an error for the fallible one) instead of wrapping, and leaves earlier lists intact.",
  ["inputs", "histories"], "all starting states (including unreferenced child suffixes) and appended lists, both offset widths, totals up to and beyond the offset maximum",
  "Tests append a few small lists; offset overflow needs totals near 2^31 and suffix handling needs unusual raw parts.",
  ["src/offset.rs"], [("append", "src/offset.rs: Extend::extend, CollectionRealloc::try_extend"), ("offset arithmetic", "src/offset.rs: Offset::strict_add, as_usize")],
  [("data/offsets", "last offset equals the used child length before appending", "src/offset.rs: struct Offsets")],
  "lists read back and raw offsets after an append")

p("C10", "Fixed-size lists are exactly consecutive groups of the child",
  "Building a fixed-size list collection of width N succeeds exactly when N is positive and the child length is a multiple of N, otherwise it reports which condition failed, and it decomposes into the same child. List i consists of child items i*N to i*N+N-1 through every read operation, a position out of range gives nothing and never panics for every index up to the largest machine integer, and appending or collecting lists makes exactly those lists readable, in order, after the existing ones.",
  ["inputs", "histories"], "all child collections, widths, indices and appended lists",
  "Tests read in-range lists of width two or three; out-of-range and overflowing positions are not sampled.",
  ["src/collection/flatten.rs", "src/layout/fixed_size_list.rs"],
  [("grouping", "src/collection/flatten.rs: Flatten, FlattenView, ArrayChunks"), ("layout", "src/layout/fixed_size_list.rs")],
  [("child", "flat child whose length is a multiple of N", "src/collection/flatten.rs: struct Flatten")],
  "lists read from the collection; result of construction")

p("C11", "Truncation keeps exactly the leading items",
  "Truncating any growable collection to k items leaves min(k, length) items, each reading back as before, and truncating to the current length or more changes nothing, including for the largest machine integer. Items appended afterwards read back exactly, with nothing of the dropped items reappearing.",
  ["inputs", "histories"], "all collections (values, packed booleans, nullable, variable-size, fixed-size and nested), all k, followed by any append",
  "Tests truncate a few collections; reappearing stale bits or child items need a truncate at an unaligned position followed by an append of particular length.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs"],
  [("truncate", "CollectionRealloc::truncate in each file")],
  [("logical end", "data beyond it is stale", "each collection struct")],
  "items read back after truncate and after a later append")

p("C12", "A failed fallible append changes nothing",
  "When a fallible append reports that storage could not be reserved, the collection has the same length and the same items as before the call, for every kind of growable collection and nesting, at whatever point in the sequence the reservation failed. The collection stays fully usable: a later append that succeeds reads back exactly.",
  ["fault_sequences", "inputs"], "all starting states, appended sequences and all points at which any of the underlying reservations fails",
  "The existing tests cannot make the allocator fail at a chosen point; partial progress in one of several buffers is visible only then.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs"],
  [("rollback", "CollectionRealloc::try_extend in each file")],
  [("buffers", "several buffers per collection that must stay in step", "each collection struct")],
  "length and items after an Err result")

p("C13", "A panicking source leaves a valid prefix",
  "When the iterator being appended panics partway, the collection is left with all its earlier items unchanged followed by a prefix of the appended items, every read and iteration over it works, and its length is consistent across all ways of reading. Appending again afterwards reads back exactly that prefix followed by the newly appended items.",
  ["crash_points", "histories"], "all starting states and all positions at which the source iterator panics, followed by any append, for every growable collection and nesting",
  "Only a few hand-picked panic positions are tested; alignment is lost only when a panic falls inside a particular byte, group or batch.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs"],
  [("commit order in append", "Extend::extend in each file"), ("discarding an uncommitted suffix", "src/validity.rs, src/offset.rs: extend")],
  [("committed length", "bit count / bitmap length / last offset", "each collection struct")],
  "collection state observed after the unwinding, and after a later append")

p("C14", "Iterators announce exactly how many items they yield",
  "Every consuming iterator over a collection reports, at every point of the iteration, a lower and an upper bound equal to the exact number of items it will still yield, and then yields exactly that many. The same holds for borrowed iterators that report an exact length, and reported bounds of any borrowed iterator always enclose the true remaining count.",
  ["inputs", "histories"], "all collections, all numbers of items already taken",
  "Tests look at the hint of fresh iterators; partially consumed bytes, offsets and nested iterators give wrong hints only midway.",
  ["src/bitmap/unpacked.rs", "src/bitmap/packed.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/slice.rs"],
  [("size hints", "Iterator::size_hint and ExactSizeIterator::len impls")],
  [], "size hints and item counts")

p("C15", "Collecting items and reading them back is the identity for every layout",
  "For every supported item type, including nested nullable, variable-size and fixed-size combinations, and every growable or boxed storage, collecting a finite sequence gives a collection with as many items as the sequence, whose item i equals the i-th item of the sequence through indexed, borrowed and consuming access; every way of constructing it (plain, with a given allocator, fallible) gives the same contents whatever bounds the source announces. Values stored for absent items are the default and do not show. Wrapping a layout into an array or taking it out changes nothing.",
  ["inputs", "configurations"], "all item sequences, for every item type composition and storage",
  "Tests collect a few short literals per layout.",
  ["src/array.rs", "src/layout/", "src/collection/", "src/validity.rs", "src/offset.rs", "src/bitmap/mod.rs"],
  [("layout selection", "src/layout/mod.rs"), ("collect", "FromIterator / from_iter_in / try_from_iter_in impls")],
  [], "items read back")

p("C16", "Capacity requests either hold or report failure, and never change contents",
  "Constructing with a requested capacity gives an empty collection, and a fallible request that cannot be met (including one whose size computation overflows) returns an error rather than panicking. Reserving additional capacity leaves all items unchanged and, once it succeeded, that many further simple items can be appended without another reservation. A failed reservation leaves the collection unchanged and usable.",
  ["inputs", "fault_sequences"], "all collections, all requested capacities up to the largest machine integer, all reservation failures",
  "Tests request small capacities; overflow and failure paths need extreme values or a failing allocator.",
  ["src/bitmap/mod.rs", "src/validity.rs", "src/offset.rs", "src/collection/flatten.rs", "src/collection/vec.rs", "src/collection/box.rs"],
  [("capacity requests", "with_capacity_in, try_with_capacity_in, reserve, try_reserve impls")],
  [], "results of capacity requests and contents afterwards")

p("C17", "Exported arrays describe exactly the data they hold, without copying",
  "Exporting an array through the C data interface gives a schema and an array whose format, nullable flag, length, null count, offset zero, buffer count, child count and absent dictionary match the array's type and contents at every nesting level, with buffer pointers that are the array's own memory (absent exactly where the format has no validity). An array whose packed bits start at a non-zero offset, at any level, is rejected with that offset and nothing is leaked or released twice.",
  ["inputs", "configurations"], "all arrays of every supported type composition and bitmap offset",
  "Tests export one literal per layout; counts, flags and offsets at inner levels of nested arrays range over every content.",
  ["narrow-ffi/src/export/", "narrow-ffi/src/lib.rs"],
  [("export", "narrow-ffi/src/export/mod.rs: ArrowArrayLayout"), ("per-layout buffers and schema", "narrow-ffi/src/export/*.rs")],
  [("ArrowArray/ArrowSchema", "C structures", "narrow-ffi/src/lib.rs")],
  "fields of the exported structures and the memory they point to")

p("C18", "Import accepts exactly well-formed structures and never reads out of bounds",
  "Importing a C data interface array succeeds exactly when every field checked by the documentation (liveness, format, nullability flag, length, offset, null count, buffer and child counts, dictionary, pointers, alignment, fixed width, offsets) is consistent with the requested type at every level, otherwise it returns the error for what is wrong without dereferencing anything missing. An accepted array reads exactly the values in the buffers, borrowing them, and a declared null count always equals the actual one or is the unknown marker.",
  ["inputs"], "all field values of the C structures for every supported type, with valid memory behind the declared pointers",
  "Tests change one field at a time to one value; acceptance ranges over all 64-bit field values and combinations.",
  ["narrow-ffi/src/import/"],
  [("common validation", "narrow-ffi/src/import/mod.rs: import_layout"), ("nullability", "narrow-ffi/src/import/mod.rs: wrap"), ("per-layout import", "narrow-ffi/src/import/*.rs")],
  [("ArrowArray/ArrowSchema", "C structures", "narrow-ffi/src/lib.rs")],
  "import result, and items of the imported array")

p("C19", "Export followed by import gives back the same array",
  "For every array of a supported type that can be exported, importing the exported structures as the same type succeeds and yields a borrowed array with the same length and the same items, nulls included, at every nesting level. Importing them as a different type or nullability is refused.",
  ["inputs", "configurations"], "all arrays of every supported type composition",
  "Tests round-trip one literal per layout.",
  ["narrow-ffi/src/export/", "narrow-ffi/src/import/"],
  [("export", "narrow-ffi/src/export/"), ("import", "narrow-ffi/src/import/")],
  [], "items of the imported array")

p("C20", "Exported memory is owned once and released exactly once",
  "Releasing an exported array or schema, explicitly through its callback or by dropping it, frees everything it owns exactly once, marks the structure released, clears its private-data, buffer, child and dictionary pointers, and leaves the other structure usable; a released or default structure does nothing on drop. Until then every exported buffer, child and format string stays valid and unmoved, also after the structure itself was moved, and a failed export frees the array.",
  ["histories", "inputs"], "all orders of moving, releasing and dropping the array and the schema, for every supported type composition",
  "Tests release one literal in one order, and leaks or double frees are not observed by assertions.",
  ["narrow-ffi/src/export/", "narrow-ffi/src/lib.rs"],
  [("ownership", "narrow-ffi/src/export/mod.rs: ArrayData, release_array, release_schema, release_flat_schema"), ("drop", "narrow-ffi/src/lib.rs: Drop impls")],
  [("private_data", "owner of everything the structure points to", "narrow-ffi/src/export/mod.rs")],
  "released flags, pointers, and drop counts of the owned storage")

p("C21", "Nullability operations follow option semantics",
  "Mapping, zipping and combining items is plain application for non-nullable items; for nullable items the result is absent exactly when any input is absent, the function is called at most once and only when all inputs are present, and the result is otherwise the function applied to the inputs.",
  ["inputs", "programs"], "all items and functions",
  "Tests evaluate a few literals with one closure.",
  ["src/nullability.rs"], [("map, zip, zip_with", "src/nullability.rs")], [], "results and number of calls")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
