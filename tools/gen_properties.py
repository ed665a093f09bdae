import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Decoding then re-encoding any element gives back exactly its bytes",
 "Whenever the reader decodes a generic CBOR element from a buffer, writing that element back (directly, or after converting it to its owned form) produces exactly the bytes the reader consumed, byte for byte. This holds for non-canonical integers and lengths, indefinite-length bytes, text, arrays and maps, tags, simple values and every float width, at any nesting.",
 ["inputs"],"every byte string from which an element can be read, at every starting position",
 "The tests re-encode nothing but a couple of hand-picked canonical values; exactness has to hold for every one of the encodings of every value, which no sample covers.",
 ["src/reader.rs","src/writer.rs","src/types/mod.rs","src/types/streamable.rs","src/types/structure.rs","src/lowlevel/header.rs","src/lowlevel/lead.rs"],
 [("Reader::data and the typed readers keep the header representation","src/reader.rs"),("HeaderValue keeps the width of the encoded argument","src/lowlevel/header.rs"),("Writer::data / write_value emit the kept representation","src/writer.rs")],
 ["Reader::data","Writer::data","DataOwned decode/encode"])
p("C02","The validator accepts exactly the well-formed items, with exact extents",
 "Validating the next item of a buffer succeeds if and only if the bytes at that position start with one complete well-formed CBOR item (RFC 8949 section 3 and appendix C): reserved additional information is refused, indefinite bytes and text contain only definite chunks of their own kind, maps hold whole key/value pairs, breaks only close indefinite items, and declared lengths and counts are all present (the one-byte form of simple values may carry any value, the library's byte type). On success it returns exactly the bytes of that item and its length, and leaves the validator right after it.",
 ["inputs"],"every byte string and every sequence of successive validations over it",
 "The validator tests check nine accepted inputs and three truncated ones; acceptance of malformed nesting (odd maps, foreign items in chunks) is never exercised.",
 ["src/validate.rs","src/state.rs","src/context.rs","src/lowlevel/lead.rs","src/lowlevel/header.rs"],
 [("Validator::next drives the header decoder and the push-down state","src/validate.rs"),("State transitions","src/state.rs")],
 ["Validator::next","Validator::remaining_bytes"],
 [("State stack","pending structures with the number of items still expected in each","src/state.rs")])
p("C03","Readers consume exactly one well-formed element and slice containers exactly",
 "Reading a generic element succeeds if and only if the buffer continues with one complete well-formed CBOR item (whose text, when the element itself is a text, is valid UTF-8 in every chunk), and consumes exactly that item; so reading and validating agree on acceptance and extent. Reading an array, map or tag yields one slice per contained element, in order, each slice being exactly one well-formed item, together covering the container's content without gap or overlap, as many as the header declares (twice that for maps) or as appear before the break.",
 ["inputs"],"every byte string and reading position",
 "Tests read three arrays and one map; agreement between two independent traversals and exact tiling is a claim over every nested input.",
 ["src/reader.rs","src/state.rs","src/context.rs","src/types/structure.rs"],
 [("cbor_slice_neutral delimits an element with the same state machine","src/reader.rs"),("array/map/tag loops over element slices","src/reader.rs")],
 ["Reader::data","Reader::array","Reader::map","Reader::tag"])
p("C04","No input makes reading, validating or decoding panic or overflow",
 "For every input buffer, including the empty one and those declaring absurd lengths or counts, and for every sequence of calls of the public reading, validating and decoding functions, each call returns normally with a success or an error: there is no panic, no arithmetic overflow (checked builds included), no access outside the buffer, and no unbounded loop.",
 ["inputs","histories"],"every byte string, every sequence of reader / validator / decoder calls, including calls after an error",
 "A handful of well-formed inputs cannot show that no length, count or nesting triggers an overflow or an assertion.",
 ["src/context.rs","src/reader.rs","src/validate.rs","src/state.rs","src/lowlevel/lead.rs","src/lowlevel/header.rs","src/decode.rs"],
 [("bounds checks in CborDataReader::peek","src/context.rs"),("asserts and panics in State::advance, resolve_value, from_parts are unreachable","src/state.rs, src/lowlevel/header.rs")],
 ["every public Reader, Validator, Decode function"])
p("C05","Position accounting is exact and a type mismatch consumes nothing",
 "At all times the bytes consumed plus the bytes remaining equal the buffer length, and the position never moves backwards. Peeking at the type never moves it and reports the type the next read will find; a typed read succeeds only on an element of that very type (null, undefined and booleans only on their own constants), consumes exactly that element, and when the next element has another type, or its header is missing or invalid, returns an error and leaves the position unchanged so that another read can be tried.",
 ["inputs","histories"],"every buffer, every reader position reachable by any call sequence, every typed read",
 "One test covers one mismatch (negative instead of positive); the claim is over all pairs of wanted and actual types and all call sequences.",
 ["src/reader.rs","src/context.rs","src/types/mod.rs"],
 [("header is peeked, matched, and only then the position advances","src/reader.rs"),("matches_type!","src/reader.rs")],
 ["Reader::positive/negative/scalar/byte/float/constant/null/undefined/bool/bytes/text/array/map/tag","Reader::peek_type","Reader::consumed_bytes","Reader::remaining_bytes","Reader::is_finished","Reader::expect_finished"])
p("C06","Truncated data is reported as missing, with the right counts",
 "Reading or validating any strict prefix of a well-formed item (with valid UTF-8 text) never succeeds: it fails with a missing-data error. The reported expected count is the number of bytes the failing piece (item header, argument, or byte/text content) needs, and the reported available count is the number of bytes that are really there for it, which is strictly smaller.",
 ["inputs"],"every strict prefix of every well-formed item",
 "Three truncations are tested; the counts are used to fill buffers incrementally and must be right at every cut point.",
 ["src/context.rs","src/reader.rs","src/validate.rs"],
 [("CborDataReader::peek computes the missing-data report","src/context.rs")],
 ["ReaderError::DataMissing","ValidateError::DataMissing"])
p("C07","Every value written can be read back unchanged",
 "For every element value (scalar of any kept width, byte, constant, float, definite or chunked bytes and text, array, map and tag made of complete elements), writing it and reading the result with the matching reader, or with the generic one, yields an equal value with the same representation and consumes exactly what was written, whatever bytes follow. Writing a sequence of values and reading it back yields the same sequence.",
 ["inputs"],"every well-formed element value, written at any place of a buffer followed by anything",
 "The tests write one constant and one small integer.",
 ["src/writer.rs","src/reader.rs","src/encode.rs","src/decode.rs","src/types/mod.rs"],
 [("Writer functions","src/writer.rs"),("Reader functions","src/reader.rs")],
 ["Writer::* then Reader::*"])
p("C08","The writer only appends, and emits the exact wire format",
 "Every write leaves the bytes already in the buffer untouched and appends exactly the RFC 8949 encoding of its argument: the lead byte with the major type and argument width kept by the value, the big-endian argument, then the content. Array and map builders append the header, then precisely what the callback wrote, then a break if and only if the length is indefinite; tag builders append the tag header then what the callback wrote.",
 ["inputs"],"every value and every prior buffer content, every callback",
 "Only two one-element outputs are ever produced in the tests and they are not compared byte for byte.",
 ["src/writer.rs","src/lowlevel/lead.rs","src/lowlevel/header.rs"],
 [("write_value / write_value_stream","src/writer.rs"),("array_build / map_build / tag_build","src/writer.rs")],
 ["Writer::finalize","Writer::new_from_vec"])
p("C09","Canonical constructors give the shortest encoding, and the check detects it",
 "Building an integer, tag, length or byte (simple value) in canonical form keeps its value and selects the shortest encoding that denotes it (bytes 20 to 23 need the two-byte form, their immediate forms being the constants); such a value can always be written. The canonical check of an element read from the wire answers true if and only if no shorter encoding of the same value exists.",
 ["inputs"],"all 2^64 arguments (all 256 for bytes) and all encodings of each",
 "Two values are built canonically in tests and the canonical check is never called.",
 ["src/lowlevel/header.rs","src/types/scalar.rs","src/types/structure.rs","src/writer.rs"],
 [("HeaderValue::canonical / is_canonical, HeaderValue8::canonical / is_canonical","src/lowlevel/header.rs")],
 ["Positive/Negative/Scalar/Byte::canonical, is_canonical","TagValue::from_u64","StructureLength::from"])
p("C10","Native Rust values decode exactly or not at all",
 "Decoding an unsigned integer of 8, 16, 32 or 64 bits succeeds exactly when the element is a positive integer (in any encoding width) whose value fits the type, and gives that value, never a truncated one; booleans, strings, byte vectors and fixed-size byte arrays likewise decode exactly from their own element kind, fixed-size arrays only when the length matches. Encoding such a value and decoding it gives the value back, and the encoding is canonical.",
 ["inputs"],"all values of u8, u16, u32, u64, bool, String, Vec<u8>, [u8; N], all input elements",
 "One u64 and one bool are decoded in tests; range limits and the other types are not touched.",
 ["src/decode.rs","src/encode.rs"],
 [("assert_range! and casts","src/decode.rs"),("Encode impls of native types","src/encode.rs")],
 ["decode_from_bytes","encode_to_bytes","Reader::decode"])
p("C11","Integer views are mathematically exact",
 "The unsigned view of an integer element is the argument it was encoded with; the signed view of a positive n is n and of a negative with argument n is -1-n, and is absent exactly when that number does not fit in a signed 64-bit integer. Sign predicates tell the element kind.",
 ["inputs"],"all 2^64 arguments in every width for both signs",
 "No test calls the signed views; the boundary is a single value in 2^64.",
 ["src/types/scalar.rs","src/lowlevel/header.rs"],
 [("Negative::to_i64, Scalar::to_i64","src/types/scalar.rs")],
 ["Positive::to_u64","Negative::negative_u64","Negative::to_i64","Scalar::to_i64"])
p("C12","Floats keep their bits and convert to the value they denote",
 "A float element of any width keeps its exact bit pattern from the wire to the wire. Its conversion to a native float denotes the same IEEE 754 number whenever the target is at least as wide (half to single, half and single to double), for zeros, subnormals, normals and infinities, keeping the sign; a NaN converts to a NaN.",
 ["inputs"],"all 2^16 half, 2^32 single and 2^64 double patterns",
 "No test converts a half-precision float.",
 ["src/types/float.rs","src/reader.rs","src/writer.rs"],
 [("ieee754_u16_to_u32","src/types/float.rs")],
 ["Float::to_f32","Float::to_f64"])
p("C13","Bytes and text contents are the concatenation of their chunks",
 "The content of a bytes or text element, definite or chunked, is the concatenation in order of the chunk contents as present on the wire, and the reported byte length is the length of that content. A text element reads successfully only if every chunk is valid UTF-8 by itself, and is refused otherwise.",
 ["inputs"],"every bytes or text element with any number of chunks of any sizes",
 "Chunked reading is never tested through the reader.",
 ["src/types/streamable.rs","src/reader.rs"],
 [("Bytes::len / to_vec, Text::to_string / to_str_chunks","src/types/streamable.rs"),("Reader::bytes / text chunk loops","src/reader.rs")],
 ["Bytes::len","Bytes::to_vec","Text::to_string","Text::to_str_chunks"])
p("C14","Owned and borrowed forms carry the same element",
 "Converting any element to its owned form and borrowing it again gives an equal element: same representation of integers and lengths, same chunk boundaries, same contained slices in the same order. Arrays assembled with the array builder contain exactly the appended elements in order, with a definite canonical count or indefinite as asked.",
 ["inputs","histories"],"every element value, every sequence of builder appends",
 "No test converts a container or chunked element to owned.",
 ["src/types/mod.rs","src/types/streamable.rs","src/types/structure.rs","src/prim.rs"],
 [("owned() / borrow() pairs","src/types/"),("ArrayBuilder","src/types/structure.rs"),("CborSlice::to_owned / CborData::borrow","src/prim.rs")],
 ["Data::owned","DataOwned::borrow","ArrayBuilder::finite","ArrayBuilder::indefinite"])
p("C15","Typed preserved CBOR keeps the original bytes and stays decodable",
 "Capturing an element as preserved typed data succeeds only if the element is well formed and decodes as that type with nothing left over; the captured bytes are exactly the element's bytes, encoding it re-emits exactly them, and retrieving the typed value later yields what decoding those bytes yields and never fails. Converting a value to preserved typed data stores its encoding.",
 ["inputs"],"every element and every type whose decoding is a function of the bytes",
 "Preserved data types are not used by any test.",
 ["src/prim.rs","src/reader.rs","src/encode.rs","src/decode.rs"],
 [("exact_decodable_slice / exact_decodable_data / validate_as","src/reader.rs, src/prim.rs"),("unserialize","src/prim.rs")],
 ["CborDataOf","CborSliceOf"])
p("C16","The structure state machine accepts exactly complete event sequences",
 "For any sequence of structure events (simple value, bytes, text, array, map, tag, break), the state machine never panics, reports an error exactly at an event that no well-formed item sequence can contain at that point, and reports itself acceptable exactly when every structure started so far is complete.",
 ["histories"],"every finite sequence of events with any announced sizes",
 "Nine short accepted sequences are tested and no rejected one.",
 ["src/state.rs"],
 [("State::advance / reduce / check_reduce and the event methods","src/state.rs")],
 ["State::simple/bytes/text/array/map/tag/brk","State::acceptable"],
 [("State stack","pending structures","src/state.rs")])
p("C17","Standard tagged types read and write exactly",
 "Each provided tagged type (date/time string, positive and negative bignum, embedded CBOR, rational number) reads successfully exactly from its own tag number, in any tag encoding width, around content of its documented shape with nothing left over, including rationals with bignum parts of either sign; writing the value read reproduces the original bytes exactly. Accessors return the content as it appears on the wire.",
 ["inputs"],"every input element for each of the five types",
 "No test covers the tagged types.",
 ["src/tagged.rs","src/types/structure.rs","src/writer.rs"],
 [("read / write of each type","src/tagged.rs"),("Tag::read_data checks for leftovers","src/types/structure.rs")],
 ["decode/encode of cbored::tagged types"])
p("C18","Derived struct codecs follow the documented layout and round-trip",
 "For a struct with derived codecs, encoding emits the documented layout (fields in order: bare for flat, in an array of the number of fields, with the last optional field omitted when absent, or an integer-keyed map), wrapped in the declared tag if any, and decoding that encoding gives the struct back. Decoding fails on any other tag, on a wrong number of elements, and on any field that does not decode.",
 ["programs","inputs"],"every struct definition the derive accepts, every value of it, every input",
 "The only derive uses are three compile-only examples; no derived codec is ever run.",
 ["cbored-derive/src/product.rs","cbored-derive/src/attr.rs","cbored-derive/src/common.rs"],
 [("derive_struct_se / derive_struct_de","cbored-derive/src/product.rs")],
 ["derived Encode/Decode of structs"])
p("C19","Derived enum codecs follow the documented layout and round-trip",
 "For an enum with derived codecs, each variant encodes as documented (an array led by the variant number then its fields, the bare variant number, or the bare content told apart by its CBOR type with null for the empty variant), numbers counting up from the declared start and skipping the declared numbers, and decoding that encoding gives the variant back. Decoding fails on unknown variant numbers or types and on a wrong number of elements.",
 ["programs","inputs"],"every enum definition the derive accepts, every value of it, every input",
 "The only derive uses are compile-only examples.",
 ["cbored-derive/src/sum.rs","cbored-derive/src/attr.rs"],
 [("enumerate_variant_indices","cbored-derive/src/sum.rs"),("derive_enum_se / derive_enum_de","cbored-derive/src/sum.rs")],
 ["derived Encode/Decode of enums"])
p("C20","Derived integer-keyed maps accept exactly one value per known key",
 "A struct derived as an integer-keyed map numbers its fields from the declared start, passing over the declared skipped keys, and omits absent optional fields. Decoding accepts the entries in any order and in any length encoding, and fails without panicking on a duplicated key, an unknown key however large, a missing mandatory field, or a value that does not decode.",
 ["programs","inputs"],"every accepted definition, every map input, every 64-bit key",
 "No derived map codec is run by any test.",
 ["cbored-derive/src/product.rs"],
 [("mapint branch of derive_struct_se / derive_struct_de","cbored-derive/src/product.rs")],
 ["derived Encode/Decode with integer-keyed maps"])
p("C21","Whole-buffer and contained decoding refuse leftover data",
 "Decoding a complete buffer, a captured slice, owned captured data or the content of a tag into one value succeeds only if the value's encoding takes up all of the bytes; any leftover byte is reported as an error. Encoding a value to bytes and decoding those bytes as a whole succeeds.",
 ["inputs"],"every buffer, every decodable type",
 "No test passes trailing bytes.",
 ["src/lib.rs","src/reader.rs","src/prim.rs","src/types/structure.rs"],
 [("expect_finished checks","src/lib.rs, src/prim.rs, src/types/structure.rs"),("decode_one","src/reader.rs")],
 ["decode_from_bytes","Reader::decode_one","CborSlice::decode","Tag::read_data","Tag::decode_data"])
p("C22","Homogeneous sequences keep count and order",
 "Encoding a slice of values writes a definite array with canonical count holding each value's encoding in order; decoding an array, or turning an array or map into a vector, gives exactly one decoded value per element, in order, or the error of the first element that fails.",
 ["inputs"],"every slice of encodable values, every array or map input, every element decoder",
 "No test uses the sequence helpers.",
 ["src/encode.rs","src/decode.rs","src/types/structure.rs"],
 [("encode_vec / decode_vec","src/encode.rs, src/decode.rs"),("Array::to_vec / Map::to_vec","src/types/structure.rs")],
 ["encode_vec","decode_vec","Array::to_vec","Map::to_vec"])
p("C23","Errors say what was missing, expected and found",
 "When a read fails, the error tells the truth about why. Input that ends too early is reported as a missing piece, naming whether a header byte, the bytes of a length or argument, or content bytes are missing, how many were wanted and how many are left; a first byte that starts no element is reported as such; an element that breaks the structure rules while no piece is missing is never reported as missing data. A typed read of another kind of element names the kind asked for and the kind found, also inside chunked strings; a tagged type names the tag number it expects and the one present; a fixed-length read names the length expected and the one present; an integer out of range names the type's bounds and the value; leftover bytes are reported with their number (and, by the reader, position and next byte). An event the state machine refuses is reported with the documented kind of refusal. Error contents of derived codecs are C25.",
 ["inputs"],"every byte string, every read of the reader and of the library's own types, every state and event",
 "The tests never look inside an error value.",
 ["src/context.rs","src/lowlevel/lead.rs","src/reader.rs","src/validate.rs","src/state.rs","src/decode.rs","src/types/","src/lib.rs"],
 [("CborDataMissing, CborDataContext and LeadError","src/context.rs, src/lowlevel/lead.rs, src/lowlevel/header.rs"),("matches_type! and read wrappers","src/reader.rs"),("DecodeErrorKind and its construction","src/decode.rs, src/prim.rs"),("StateError","src/state.rs")],
 ["ReaderError","DecodeErrorKind","StateError","ValidationError"])
p("C24","The context of a decoding error leads to where it happened",
 "A decoding error carries its place as a list of entries from the innermost to the outermost. Making an error gives it exactly one entry, the name of the type or the text it is made with; each push (type name, static text or owned text) adds exactly one outermost entry and changes neither the kind nor the entries there are; the accessors give back the kind and all entries in order, and the context as a path is the (non-empty) entries from the outermost to the innermost with \"->\" between them. An error of decoding one of the library's own element types has one entry, the type's name; leftover bytes found by decode_from_bytes, decode_one or by decoding preserved data are reported under the name of the type asked for, and any other error comes through with its context unchanged. Decoding a vector reports a failing element with the element's own context, then its index in decimal, then \"Vec\", and an input that is no array with \"Vec\" alone.",
 ["inputs"],"every chain of constructions and pushes, every byte string, every element type",
 "The tests never look inside an error value.",
 ["src/decode.rs","src/lib.rs","src/reader.rs","src/prim.rs","src/tagged.rs"],
 [("DecodeError::new*, push*, context, context_as_path","src/decode.rs"),("decode_vec","src/decode.rs"),("map_err(.. context ..) of each implementation","src/decode.rs, src/tagged.rs, src/prim.rs, src/lib.rs")],
 ["DecodeError::context","DecodeError::context_as_path"])
p("C25","Errors of derived codecs say what was wrong and in which field",
 "A derived decoder that fails says what was wrong and where. Its own refusals have one context entry, the name of the type: a wrong tag number names the number expected and the one present, another kind of element names the kind asked for and the kind found, and a wrong number of items, an unknown or repeated key, a missing mandatory key, an unknown variant number or an element type no variant has is an error of the decoder's own (Custom). Otherwise the first field that fails (for maps: a field of the entry that fails) is reported, with exactly the kind of error and the context its own decoding gives, followed by the entries the derive adds: the field's name (field0, field1, .. for unnamed ones), for enums with fields also the variant's name, then the type's name; enumtype enums add the variant's and the type's name; flat and unnamed structures add the field's name only; the elements of a list field and a variant number that is no integer come through with their own context. A key that is no integer is reported with the type's name added.",
 ["inputs"],"every derive definition, every byte string, every behaviour of the field decoders",
 "The tests never look inside an error value; definitions are open-ended.",
 ["cbored-derive/src/product.rs","cbored-derive/src/sum.rs","src/decode.rs"],
 [("derive_struct_de","cbored-derive/src/product.rs"),("derive_enum_de","cbored-derive/src/sum.rs")],
 ["generated Decode implementations","DecodeError::error","DecodeError::context"])
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,S); assert len(d['title'])<=80,d['title']
print(len(P))
