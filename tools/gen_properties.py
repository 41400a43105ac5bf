#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))

ENC, DEC, TYPES, CONST = "encode.go", "decoder.go", "gltf.go", "const.go"

prop("C01", "Saving and reloading a document preserves all of its content",
 "For every document whose buffers are consistent (declared length equals data length), encoding it as GLB, as compact JSON or as indented JSON and decoding the result yields an equal document: every field of every object, name, index, number, extra, unknown extension and buffer byte. The only admissible differences are the documented ones: values that mean the specification default come back as that default (for example a zero node matrix, rotation or scale, or an absent alpha cutoff), empty collections and absent ones are the same, a relative URI comes back as the path it denotes, and a buffer that had no URI may come back with an embedded-data URI. Saving the reloaded document and reloading it once more changes nothing further.",
 ["inputs", "configurations"], "all documents built from any subset of the object types and fields, in the three output forms",
 "Tests round-trip a handful of fixed documents; they sample a few field combinations and never compare a second save.",
 [ENC, DEC, TYPES, CONST], [("Encoder.Encode / Decoder.Decode", "encode.go, decoder.go"), ("MarshalJSON/UnmarshalJSON pairs", "encode.go, const.go")],
 ["document before Encode", "bytes produced", "document after Decode"])

prop("C02", "Encoded and decoded JSON uses the glTF 2.0 names, codes and structure",
 "The JSON written for any document is a valid JSON object whose members carry exactly the glTF 2.0 property names, nesting and values for the populated fields, with no other members, apart from properties equal to their default which may be left out. Conversely, decoding any glTF 2.0 JSON object, in any member order and whitespace, stores each property in the field that documents it and ignores properties it does not know. Required properties (asset version, accessor type, component type and count, buffer and buffer-view lengths, camera type, animation channel target path, ...) are always written. A prefix or an indentation asked for changes white space only and is honoured. A member of glTF itself whose JSON value is of another type than glTF defines (null, the camera type and extras aside) makes decoding fail.",
 ["inputs"], "all documents and all glTF 2.0 JSON texts over the modelled properties",
 "A round-trip test cannot see a name or code that is wrong in the same way on both sides; the existing tests look at a few fixed texts.",
 [ENC, DEC, TYPES, CONST], [("struct tags and custom (un)marshallers", "gltf.go, encode.go, const.go")], ["JSON text written", "document decoded from an independently generated JSON text"])

prop("C03", "Absent properties take the glTF default; explicit values are never replaced",
 "When a property with a glTF default (node matrix/rotation/scale/translation, alpha mode and cutoff, normal scale, occlusion strength, base colour, metallic and roughness factors, emissive factor, primitive mode, wrap modes, interpolation, asset version, light colour/intensity/range and spot outer angle, specular-glossiness factors, texture-transform scale) is absent, decoding yields the default, and the ...OrDefault accessors return it for unset fields. A value given explicitly, including 0 or a value partly equal to the default, is never replaced by the default in decoding or in encoding, and one object's values never leak into another or into the shared default variables; the only exception is the documented one that all-zero node matrices, rotations and scales, all-zero texture-transform scales and an empty asset version stand for unset.",
 ["inputs", "histories"], "all presence/absence combinations of the defaulted properties and all values, over sequences of decodes and encodes",
 "Tests check one all-default and one no-default object per type; the 2^n presence combinations, aliasing between objects and boundary values are not sampled.",
 [ENC, TYPES, "ext/lightspunctual/lightspunctual.go", "ext/specular/specular.go", "ext/texturetransform/transform.go"],
 [("UnmarshalJSON with pre-filled defaults, MarshalJSON omitting defaults, OrDefault accessors", "encode.go, gltf.go, ext/*")], ["decoded fields", "encoded JSON members", "OrDefault results"])

prop("C04", "Enumerations map one-to-one to the glTF codes",
 "Every value of the enumerated types (component type, accessor type, primitive mode, alpha mode, magnification and minification filter, wrapping mode, interpolation, animation path, buffer-view target) is written as the code or string that glTF 2.0 assigns to it and read back from that code as the same value, in isolation and inside documents, and its textual name is the specification name, which no unassigned value has (asking for the name of one does not fail either). The attribute name constants are the names of the specification. Component byte sizes, component counts and padded element sizes are the ones of the specification for all 42 component/accessor type combinations. An unknown accessor type string is an error, any other unassigned code is either an error or read as no assigned value but the type's Go zero value, and a value of the wrong JSON type is an error for all of them.",
 ["inputs"], "all enumeration values, all 16-bit codes and all 42 element layouts (exhaustive), plus arbitrary strings",
 "Only a few values are tested; a swapped pair in both tables passes every round-trip test.",
 [CONST, "const_strings.go", TYPES], [("MarshalJSON/UnmarshalJSON tables, String, ByteSize, Components, SizeOfElement", "const.go, const_strings.go, gltf.go")], ["codes written", "values read", "sizes returned"])

prop("C05", "Binary output is a well-formed GLB container",
 "For every document with consistent buffers, binary encoding produces: the magic and version 2, a total length equal to the number of bytes written, a first chunk of type JSON padded to a multiple of four with spaces whose content is the document's JSON, and, exactly when the first buffer exists and has no URI, one further chunk of type BIN holding that buffer's bytes padded with zeros to a multiple of four. The first buffer then has no URI in the JSON and nothing follows the last chunk. Non-binary output is only the JSON text. A new encoder writes binary until it is told otherwise.",
 ["inputs", "configurations"], "all documents: all JSON and BIN lengths modulo 4, zero to several buffers, with and without URIs and indentation",
 "Tests decode a few GLBs with this same library's decoder, which does not check padding, total length or trailing bytes.",
 [ENC], [("Encoder.encodeBinary", "encode.go")], ["bytes given to the writer"])

prop("C06", "Each buffer's bytes go to, and come from, exactly one right place",
 "When encoding, each buffer's data is delivered exactly once and complete: in the BIN chunk for a first buffer without URI in binary mode, inside the JSON as base64 for the other buffers without URI, in its embedded URI, or in the file its relative URI denotes; nothing else is created, and in particular not for buffers without data nor for absolute URIs. When decoding, the data of each buffer is read from that same place, limited to the declared length for files and binary chunks, using the percent-decoded, slash-separated path, and files of buffers that are embedded, absolute or binary are not touched. Each decoded buffer has bytes of its own: changing those of one changes no other. Every file that decoding opens is closed again, also when reading it fails, and saving replaces earlier contents of its files and leaves all others alone. Saving to a directory and opening from it gives back the same bytes for every buffer, for any relative URI that names a file inside it.",
 ["inputs", "configurations"], "all mixes and orders of buffer kinds, URIs (spaces, percent escapes, unicode, backslashes, sub-directories) and output forms",
 "Tests use two or three buffers with fixed names and mostly a fake file system that always holds the wanted file.",
 [ENC, DEC, TYPES], [("Encoder.encodeBuffer, marshalJSONDoc; Decoder.decodeBuffer, decodeBinaryBuffer; Save, Open", "encode.go, decoder.go")], ["Create/Open calls and bytes at the file system boundary", "decoded Data"])

prop("C07", "No URI makes the library touch a path outside the document's directory",
 "Whatever URI a buffer carries (dot segments, absolute paths, percent-encoding, backslashes, schemes, control characters or mixtures), encoding never creates and decoding never opens a name that is absolute or climbs above the directory of the document. A buffer whose URI denotes such a location is reported as an error instead, before anything is created or opened for it. File names that merely contain dots are not affected.",
 ["inputs"], "all URI strings, in Encode/Save and Decode/Open",
 "Three literal URIs are tested; escapes need encodings or scheme prefixes that no test uses.",
 [DEC, ENC], [("validateBufferURI, sanitizeURI, isAbsoluteURI", "decoder.go"), ("encodeBuffer", "encode.go")], ["names passed to Fsys.Create / Fsys.Open", "files appearing on disk"])

prop("C08", "Decoding arbitrary bytes never panics, hangs or exhausts memory",
 "For every byte sequence given to the decoder (random, mutated or crafted JSON and GLB, with hostile lengths, types, nulls, nesting and base64) decoding returns a document or an error; it does not panic or loop, and the memory it takes is bounded in terms of the bytes supplied and their nesting, never by lengths the input merely claims. The same holds for saving and opening files with such content.",
 ["inputs"], "all byte sequences up to a size bound, with and without a file system",
 "Tests feed six malformed inputs.",
 [DEC, ENC, CONST, TYPES, "ext/"], [("Decoder.Decode, header and buffer validation, UnmarshalJSON methods", "decoder.go, encode.go, const.go, ext/*")], ["return or panic of Decode", "bytes allocated during Decode"])

prop("C09", "Truncated or inconsistent containers are rejected, valid variants accepted",
 "A strict prefix of a GLB that loses any byte of its JSON text or of its binary buffer data, and a strict prefix of a JSON document, decode to an error, never to a document with missing or invented data. A GLB whose first chunk is not JSON, whose JSON chunk does not fit in the declared total length, whose second chunk is not BIN or is shorter than the buffer that needs it, and a buffer with a non-positive length or without a data source, are errors as well. Legal variations (any amount of space padding, a BIN chunk up to three bytes longer than the buffer, trailing or additional chunks after it, a GLB without BIN chunk) decode to the same document.",
 ["inputs", "crash_points"], "all cut positions, all single corruptions of the header fields and all legal paddings of generated GLBs",
 "Tests check two fixed broken headers and no cut positions.",
 [DEC], [("readGLBHeader, validateGLBHeader, decodeBinaryBuffer, validateBuffer", "decoder.go")], ["error or document returned for each variant"])

prop("C10", "Decoding does not depend on how the reader delivers the bytes",
 "Decoding gives the same document or fails alike however the same bytes are split into reads: one byte at a time, arbitrary pieces, data returned together with the final EOF, or pieces meeting at any boundary of the container. A (lasting) read error that occurs before all needed bytes were delivered is reported as an error, never turned into a successful decode with missing or zeroed data.",
 ["schedules", "fault_sequences"], "all segmentations of the input and all positions of a read error",
 "Tests read from memory buffers and local files, which deliver everything at once.",
 [DEC], [("bufio based reading, JSON chunk limiting, BIN chunk reading", "decoder.go")], ["Decode results over differently segmented readers"])

prop("C11", "Write failures are always reported and nothing is silently lost",
 "If any write to the output stream, any file creation, any write to a created file or any close of one fails, encoding returns an error; the same goes for saving to a path that cannot be created. Encoding returns nil only if the complete output and every external buffer were delivered in full. Every file the encoder creates is closed exactly once, also when something fails, and a document that cannot be represented (for example with NaN numbers, a camera without projection, or more bytes than the lengths of a GLB can hold) makes encoding fail with nothing written to the stream.",
 ["fault_sequences"], "every single fault position (byte of the stream, file operation) of every generated document and form",
 "Tests use writers that never fail, or fail always.",
 [ENC], [("Encoder.Encode, encodeBinary, encodeBuffer, save", "encode.go")], ["results of Write/Create/Close calls versus the error returned"])

prop("C12", "Binary component layouts are little-endian, column-major, padded and exact",
 "For every component type and shape, writing typed elements stores them little-endian with matrices column-major and their columns aligned to four bytes, at offset index times stride (element size when the stride is 0), changing only the bytes of the components; reading is the inverse, for every value bit pattern including NaN payloads and extremes, for every stride at least the element size. Reading or writing more elements than the bytes can hold returns a short-buffer error and never panics or touches bytes outside; exactly enough bytes is not an error. Colour structs behave as four-component vectors.",
 ["inputs"], "all 42 layouts plus colour types, all value bit patterns (8-bit exhaustive), counts, strides and slack",
 "Tests write one fixed ramp per type and mostly without stride, so matrix padding, strides of scalars, NaNs and exact bounds are not covered.",
 ["binary/binary.go", "binary/unsafe.go", "binary/encode.go"], [("Read, Write, component Put*/get methods", "binary/*.go")], ["bytes after Write with guard regions", "values after Read"])

prop("C13", "Slice construction matches the element type, count and backing buffer",
 "For all 42 combinations the slice built has the Go type that corresponds to the component and accessor type and exactly the requested number of elements, whatever backing buffer (nil, shorter, equal, longer, any length, capacity or alignment) is offered, and reading its type back gives the same combination and count. A buffer with enough capacity is used as the backing memory, storing to the slice never changes memory outside the offered buffer's capacity, and a slice built without a buffer is zeroed. Unknown component or accessor types are reported as errors.",
 ["inputs"], "all type combinations x counts x backing buffer lengths, capacities and alignments",
 "Tests cover each type once with one buffer size; one combination was in fact missing.",
 ["binary/slice.go"], [("MakeSlice, MakeSliceBuffer, Type", "binary/slice.go")], ["slice type, length, contents, guard bytes around the buffer"])

prop("C14", "Accessor data equals the glTF definition for every accessor form",
 "Reading any valid accessor returns exactly Count elements whose values are those the glTF specification defines: taken from the buffer view at the accessor and view offsets with the view's stride, zero when there is no buffer view, and with sparse indices and values substituted. It holds for all component and accessor types, interleaved views, offsets (elements of views without stride are packed with columns padded to four bytes), several buffers and any combination with sparse storage, and the bytes of a buffer view are exactly the declared window of its buffer.",
 ["inputs"], "all valid combinations of type, count, stride, offsets, sparse indices type/count and buffer layout",
 "About twenty fixed accessors are tested, none interleaved together with sparse and few with offsets.",
 ["modeler/read.go", "binary/encode.go", "binary/slice.go"], [("ReadAccessor, ReadBufferView", "modeler/read.go")], ["slices returned by ReadAccessor and ReadBufferView"])

prop("C15", "Reading accessors of malformed documents gives an error, never a panic",
 "For any document content - negative, out-of-range or overflowing indices, offsets, lengths, strides and counts, null buffers and views, missing data, invalid types and sparse indices beyond the count - the accessor, buffer-view and typed readers return an error or a result, but never panic, and never allocate memory for elements the data cannot hold. When they return data it has Count elements and comes only from inside the referenced buffer view. A violation of the referenced bounds is always an error.",
 ["inputs"], "all documents with arbitrary integers in the fields used for reading, for all readers",
 "The documentation promises it, tests check three or four malformed accessors.",
 ["modeler/read.go"], [("index and bounds validation", "modeler/read.go")], ["return, error or panic of each reader"])

prop("C16", "Typed readers accept the right types and convert exactly",
 "The typed readers (indices, normals, tangents, texture coordinates, weights, joints, positions, 8- and 16-bit colours, inverse bind matrices) accept exactly the component and accessor types glTF allows for them and report an error for all others. Accepted data is converted per element as documented: integer widening for indices and joints, normalized integers to c/max floats for texture coordinates and weights, colours with opaque alpha added when absent, 8-bit colours replicated to 16 bits and 16-bit colours scaled to 8, floats through the sRGB normalisation; floats and same-type data are bit exact. The result always has Count elements.",
 ["inputs"], "all reader x component type x accessor type combinations and all 8/16-bit values (exhaustive per component), random floats",
 "Tests use one or two elements per accepted type and a few rejected ones.",
 ["modeler/read.go", "math.go"], [("ReadIndices ... ReadInverseBindMatrices", "modeler/read.go")], ["slices and errors returned"])

prop("C17", "Read results do not depend on buffers, pools or earlier reads",
 "The result of reading an accessor is the same whatever backing buffer is passed (nil, dirty, too small, too big, reused from another read of another type) and whatever was read before. It always has exactly Count elements, later reads do not change a result that was returned with its own buffer or without one, and modifying a result never changes the document.",
 ["histories", "inputs"], "all sequences of reads of different accessors and types with reused or fresh buffers",
 "Tests make one read with a fresh or nil buffer; pooled and reused memory needs a history.",
 ["modeler/read.go", "binary/slice.go"], [("buffer pools, makeBufferOf, MakeSliceBuffer", "modeler/read.go, binary/slice.go")], ["results of each read of a history, re-checked at the end"],
 [("bufPool, uint32Pool", "pooled scratch memory shared by all reads", "modeler/read.go")])

prop("C18", "Everything written with the modeler reads back identical",
 "After any sequence of modeler writes (accessors of every type, indices, attributes, interleaved attribute sets, colours, images, raw buffer views, into new or existing buffers), every item written so far reads back through the returned index bit for bit, immediately, after all later writes, and after saving and reloading the document in any form. Rejected writes return an error and leave every earlier item readable and unchanged.",
 ["histories"], "all sequences of modeler operations with any data lengths, types and starting documents",
 "Tests perform one or two writes and compare the bytes with a literal.",
 ["modeler/write.go", "binary/encode.go", "modeler/read.go"], [("WriteAccessor, WriteAccessorsInterleaved, WriteBufferView, WriteImage, ...", "modeler/write.go")], ["data read back after each operation and at the end of the history"])

prop("C19", "The modeler keeps the document structurally valid",
 "After any sequence of modeler writes starting from a consistent document, every index it returned and stored refers to an existing object, each buffer's declared length equals its data length, every buffer view lies inside its buffer and overlaps no other view written, and every accessor lies inside its view with its data aligned to four bytes at the start of the view. Existing accessors, views, images, buffers and their bytes are never changed or reordered; new data only goes to the last buffer and each call adds exactly the objects it documents.",
 ["histories"], "all sequences of modeler operations and starting documents",
 "The existing tests assert whole documents after one or two writes.",
 ["modeler/write.go"], [("writeBufferViews, ensurePadding, lastBuffer", "modeler/write.go")], ["document snapshot before and after every operation"])

prop("C20", "Written accessors carry the metadata of their data",
 "Every accessor the modeler writes has the component type, accessor type and count of the Go data; normalized is set exactly for integer texture coordinates, weights and colours, of whichever set; positions carry the exact component-wise minimum and maximum of the data, also when written as part of an attribute set in any order; and buffer views carry the documented target and a stride exactly when elements are interleaved or padded vertex data. Attribute maps name exactly the non-empty attributes given and point to accessors with their data; data of a type not allowed for positions, texture coordinates, weights, joints or colours, or attribute sets with different lengths, are rejected.",
 ["inputs"], "all element types, data values, lengths and attribute combinations",
 "Tests use monotone three-element positions and a fixed attribute set.",
 ["modeler/write.go", "binary/slice.go"], [("WritePosition, WritePrimitiveAttributes, check* helpers, binary.Type", "modeler/write.go")], ["accessor, view and attribute map after each write"])

prop("C21", "Concurrent use on shared documents is race-free and deterministic",
 "Any number of goroutines may at the same time read accessors (typed or not) of one shared document, encode that document, decode or build other documents and register extensions; no data race happens and each operation returns exactly what it returns when run alone.",
 ["schedules"], "all interleavings of concurrent readers, encoders, decoders and extension registrations",
 "No test starts a goroutine; the readers share global pools and the decoder shares a global registry.",
 ["modeler/read.go", "gltf.go", ENC, DEC], [("sync.Pool scratch buffers", "modeler/read.go"), ("extension registry lock", "gltf.go")], ["race detector reports", "results compared with the sequential ones"],
 [("extensions", "global registry of extension factories guarded by a lock", "gltf.go"), ("bufPool, uint32Pool", "scratch pools", "modeler/read.go")])

prop("C22", "Extensions go through their registered decoder or are kept verbatim",
 "Wherever an extensions object may appear, each extension whose name is registered is decoded by exactly the last registered function, called once with that extension's JSON; an extension that is not registered, or whose function fails, is kept as its JSON text. No extension is dropped, added or moved to another key or object, a failure of one does not affect the others or the rest of the document, and encoding writes every extension back under its key with equivalent JSON.",
 ["inputs", "histories"], "all placements and mixes of registered, failing and unknown extensions, and registration histories",
 "Tests use one registered and one unknown extension on one object.",
 [ENC, TYPES], [("Extensions.UnmarshalJSON, RegisterExtension", "encode.go, gltf.go")], ["factory calls and arguments", "decoded and re-encoded extensions"])

prop("C23", "Built-in extensions survive decoding and encoding",
 "Documents using the bundled extensions (punctual lights on the document and on nodes, specular-glossiness, texture transform, unlit) decode them to their typed values, and encoding those values - decoded or built in code - succeeds and yields the JSON form defined by the Khronos extension, which decodes back to equal values. Nested texture information with its own extensions and extras is preserved, whatever text it contains. One whose JSON has members of other types than Khronos defines is kept as its JSON text.",
 ["inputs"], "all values and presence combinations of the fields of the four extensions, at the places they may appear",
 "Tests decode and encode each struct separately on one or two literals and never round-trip them inside a document.",
 ["ext/lightspunctual/lightspunctual.go", "ext/specular/specular.go", "ext/texturetransform/transform.go", "ext/unlit/unlit.go"], [("Unmarshal functions and MarshalJSON/UnmarshalJSON methods", "ext/*")], ["typed values decoded", "JSON written", "values after a round trip"])

prop("C24", "Normalization and colour conversions obey the glTF equations",
 "For every integer value, denormalizing gives the glTF value (c/max, clamped at -1 for signed types) within float rounding and normalizing the result gives the integer back (the most negative signed value maps to the negated maximum); normalizing floats rounds to the nearest representable code for all inputs in range. Colour normalisation applies the sRGB transfer curve to colour channels and none to alpha, is monotonic, maps 0 to 0 and 1 to the maximum, and colour denormalisation followed by normalisation returns every 8-bit code, and every 16-bit code, to within one unit.",
 ["inputs"], "all 8- and 16-bit codes per channel (exhaustive) and dense plus random floats in range",
 "Tests check three or four points per function.",
 ["math.go"], [("Normalize*/Denormalize*", "math.go")], ["function results"])

prop("C25", "Encoding and reading never modify their inputs",
 "Encoding a document in any form and reading accessors, buffer views or images from it leave the document and its buffer bytes exactly as they were, whether they succeed or fail, so that encoding twice yields identical output. Modeler writes do not modify or retain the slices given to them: changing the caller's data afterwards does not change the document.",
 ["inputs", "fault_sequences"], "all documents, forms and fault positions; all written data",
 "No test compares the document before and after.",
 [ENC, "modeler/read.go", "modeler/write.go"], [("marshalJSONDoc temporary buffers", "encode.go"), ("MarshalJSON methods", "encode.go"), ("copying in writeBufferViews", "modeler/write.go")], ["deep snapshot of the document before and after"])

prop("C26", "Embedded resources round-trip for any bytes",
 "Embedding any buffer data produces a base64 data URI that is recognised as embedded and that decodes, inside a document, to exactly those bytes; so do buffer URIs of the other media type that glTF allows, application/gltf-buffer, for which no file is touched; embedded PNG and JPEG image URIs of any content are recognised and yield exactly their bytes, through image data access and through a save and reload that keeps the URI. Non-embedded URIs are not taken for embedded ones, and malformed base64 is an error and never a panic.",
 ["inputs"], "all byte contents and lengths, and all truncations and corruptions of the URI",
 "Tests embed one short text.",
 [TYPES, DEC], [("EmbeddedResource, IsEmbeddedResource, marshalData, MarshalData", "gltf.go")], ["URIs produced", "bytes decoded"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
