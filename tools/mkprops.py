import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
T='generator/EmbeddedProto/templates/'
p('C01','Serialize then deserialize is lossless',
 'For every message type and every value the message can hold, deserializing the bytes it serialized to into a fresh message of the same type succeeds and yields the same field values bit for bit (including NaN payloads, negative zero, embedded NUL bytes and full-capacity strings and arrays), the same presence and the same oneof selection. A singular sub-message that is not declared optional counts as the same when absent and when empty.',
 ['inputs','programs'],'all message values of all supported field shapes (scalars, enum, string, bytes, message; singular, optional, repeated, oneof; nested to any depth)',
 'The tests serialize and deserialize a few dozen hand-written byte arrays with values 0, 1, min and max through mocks; no test ever feeds serialize output back into deserialize, and no combination of fields, lengths or special floats is covered.',
 ['src/WireFormatter.h','src/Fields.h','src/FieldStringBytes.h','src/RepeatedField.h','src/MessageInterface.cpp',T+'TypeDefMsg.h',T+'FieldBasic_Serialize.h'],
 [('message serialize / deserialize',T+'TypeDefMsg.h'),('scalar encoders and decoders','src/WireFormatter.h')],
 observe=['serialize() output','getters after deserialize()'])
p('C02','Serialized bytes are standard proto3 encoding of the message',
 'For every message value, the serialized bytes are accepted by a standard proto3 decoder with the same schema and decode there to exactly the same values, presence and oneof selection. Every set field is emitted exactly once (repeated scalars packed, in element order, repeated messages, strings and bytes as one record per element) with minimal-length varints (a negative int32 or enum may take five bytes instead of ten), and a field that holds its default value without explicit presence emits no bytes.',
 ['inputs','programs'],'all values of all message types',
 'Tests compare with a handful of fixed byte strings; the library is never run against another protobuf implementation.',
 ['src/WireFormatter.h','src/Fields.h','src/RepeatedField.h','src/FieldStringBytes.h','src/MessageInterface.cpp',T+'FieldBasic_Serialize.h',T+'FieldEnum_Serialize.h',T+'FieldMsg_Serialize.h'],
 [('tag construction and scalar encoding','src/WireFormatter.h'),('default-value elision',T+'FieldBasic_Serialize.h'),('packed versus unpacked choice','src/RepeatedField.h')],
 observe=['bytes in the write buffer'])
p('C03','Messages encoded by a standard proto3 encoder decode to the same values',
 'For every schema and value whose strings, bytes and repeated fields fit the declared lengths, the bytes a standard proto3 encoder produces deserialize without error into a message holding exactly those values, presence and oneof selection; this includes negative int32 and enum numbers sent as ten-byte varints and enum numbers the schema does not name.',
 ['inputs','programs'],'all values encoded by a conforming encoder',
 'Tests decode a few fixed byte arrays recorded by hand; negative numbers, unknown enum values in every position and combined fields are not sampled.',
 ['src/WireFormatter.h','src/Fields.h','src/RepeatedField.h','src/FieldStringBytes.h','src/MessageInterface.cpp',T+'TypeDefMsg.h',T+'TypeOneof.h'],
 [('field dispatch on the tag',T+'TypeDefMsg.h'),('scalar decoders','src/WireFormatter.h')],
 observe=['return value of deserialize()','getters'])
p('C04','Any valid encoding decodes with proto3 last-wins and merge rules',
 'For every valid encoding of a message that keeps within the declared lengths, whatever the field order, repetition of fields, splitting of repeated data into packed and unpacked pieces, or use of longer-than-minimal varints for values and lengths or of varint values with more bits than the type of the field, deserializing gives what the proto3 specification gives: the last scalar, string or bytes value wins, the last oneof member wins, sub-messages merge, repeated elements append in wire order. Deserializing two encodings one after the other into the same message equals deserializing their concatenation.',
 ['inputs','histories'],'all valid but non-canonical encodings and all sequences of deserialize calls on one message',
 'Only one test mixes repeated elements with other fields; duplicates, merges, oneof switches on the wire and non-minimal varints are not tested.',
 ['src/WireFormatter.h','src/RepeatedField.h','src/MessageInterface.cpp','src/ReadBufferSection.cpp',T+'TypeDefMsg.h',T+'TypeOneof.h'],
 [('merge into existing sub-message','src/MessageInterface.cpp'),('append of repeated elements','src/RepeatedField.h'),('oneof switch on the wire',T+'TypeOneof.h')],
 observe=['getters after deserialize()'])
p('C05','Unknown fields are skipped without any effect',
 'Inserting well-formed fields with numbers the schema does not define, of wire type varint, 64-bit, length-delimited or 32-bit, with any number and any content, at any field boundary of a valid encoding at any nesting level, changes neither the success of deserialization nor any value, presence or oneof selection. The deprecated group wire types are never interpreted as fields of the message: they are reported as an invalid wire type.',
 ['inputs'],'all positions, field numbers, wire types and payloads of unknown fields',
 'Four tests insert one unknown field each, at top level, from a mock buffer whose skip does nothing.',
 ['src/MessageInterface.cpp','src/MessageInterface.h','src/ReadBufferSection.cpp','src/ReadBufferFixedSize.h',T+'TypeDefMsg.h'],
 [('skipping by wire type','src/MessageInterface.cpp'),('advance over a length-delimited payload','src/ReadBufferFixedSize.h')],
 observe=['return value and getters after deserialize()'])
p('C06','Decoding arbitrary bytes is memory-safe, UB-free and terminates',
 'For every byte sequence and every message type, into a fresh or an already used message, deserialize returns one of the documented error codes after reading at most a number of bytes proportional to the input, without reading or writing outside the buffer or the message, without undefined behaviour and without reading beyond the end of the input or of an enclosing sub-message. The message stays usable afterwards: it can be read, serialized, copied, cleared and reused.',
 ['inputs','histories'],'all byte strings, all message states, all buffer implementations',
 'Tests feed well-formed data plus five truncated samples, without sanitizers.',
 ['src/WireFormatter.h','src/RepeatedField.h','src/RepeatedFieldFixedSize.h','src/FieldStringBytes.h','src/MessageInterface.cpp','src/ReadBufferSection.cpp','src/ReadBufferFixedSize.h',T+'TypeDefMsg.h',T+'TypeOneof.h'],
 [('length checks against capacity','src/FieldStringBytes.h'),('section limits','src/ReadBufferSection.cpp')],
 observe=['sanitizer reports','number of buffer operations','return value'])
p('C07','Malformed input is reported, with the documented error',
 'deserialize returns success only for well-formed input. A message that ends in the middle of a field, tag, length, sub-message or packed array, a varint longer than its maximum, a wire type that does not exist or does not belong to the field, and a field number of zero are each reported with an error, at any nesting depth: invalid wire type, invalid field id and overlong varint with the code of that name, input that ends inside a field value with end-of-buffer.',
 ['inputs'],'all malformed inputs, in particular every truncation point of every valid message',
 'Tests truncate three messages at one point each and check one wrong wire type.',
 ['src/WireFormatter.h','src/MessageInterface.cpp','src/RepeatedField.h','src/FieldStringBytes.h','src/ReadBufferSection.cpp',T+'TypeDefMsg.h'],
 [('error propagation through nested deserialize',T+'TypeDefMsg.h'),('tag validation','src/WireFormatter.h')],
 observe=['return value of deserialize()'])
p('C08','Data that exceeds a declared length is refused, never cut short',
 'Whenever incoming data holds more repeated elements, or a longer string or bytes value, than the receiving field can store, deserialize reports array-full; data that fits exactly is accepted in full. No field ever holds more than its declared maximum and a rejected string or bytes value is never stored in part.',
 ['inputs','configurations'],'all element counts and lengths around every declared maximum, at every nesting level, packed and unpacked, in one or several pieces',
 'One test covers one over-long string; repeated fields over capacity on the wire are not tested.',
 ['src/RepeatedField.h','src/RepeatedFieldFixedSize.h','src/FieldStringBytes.h'],
 [('capacity checks','src/RepeatedFieldFixedSize.h'),('capacity check on length','src/FieldStringBytes.h')],
 observe=['return value','get_length() / get_max_length()'])
p('C09','Serialization never overruns the buffer and fails only when it must',
 'For every message and every amount of free space in the write buffer, serialize succeeds if and only if the encoding fits in the free space, exact fit included; otherwise it returns buffer-full. It only appends: bytes already in the buffer are unchanged, nothing outside the buffer is touched, and after a failure what was appended is a prefix of the full encoding that fits the buffer.',
 ['inputs','configurations'],'all messages times all buffer capacities from 0 to more than the encoded size, with and without earlier content',
 'Tests use mocks that always accept, plus three hard-wired buffer-full answers.',
 ['src/WriteBufferFixedSize.h','src/WireFormatter.h','src/FieldStringBytes.h','src/RepeatedField.h','src/MessageInterface.cpp'],
 [('space checks before nested and packed data','src/RepeatedField.h'),('bounds of push','src/WriteBufferFixedSize.h')],
 observe=['return value','buffer content'])
p('C10','serialized_size() is exactly the number of bytes serialize writes',
 'For every message value, serialized_size() equals the number of bytes serialize appends to a large enough buffer, and every length prefix inside the encoding equals the number of bytes that follow for it.',
 ['inputs','programs'],'all values of all message types, including lengths whose prefix needs several bytes',
 'Tests check the size calculator class on its own and two nested length bytes.',
 ['src/MessageSizeCalculator.h','src/Fields.cpp','src/MessageInterface.cpp','src/RepeatedField.h'],
 [('dry-run serialization into a counting buffer','src/MessageSizeCalculator.h')],
 observe=['serialized_size()','bytes in the write buffer'])
p('C11','Optional fields keep exact presence through any history',
 'For every optional field of any type and position, after any sequence of set, mutable access, clear, copy, assignment and successful deserialization, has reports true exactly if the field was set or received since it was last cleared; a present field is serialized even when its value is the default and an absent one never is. Presence of one field is never affected by operations on another, however many optional fields a message has.',
 ['histories','inputs'],'all operation sequences over all optional fields of a message, including messages with more than 32 and 64 of them',
 'Tests run four short sequences on eight optional fields and set the flags of 33 integers once.',
 [T+'FieldBasic_GetSet.h',T+'FieldEnum_GetSet.h',T+'FieldMsg_GetSet.h',T+'FieldString_GetSet.h',T+'FieldBytes_GetSet.h',T+'TypeDefMsg.h','generator/EmbeddedProto/TypeDefinitions.py'],
 [('presence bit array',T+'TypeDefMsg.h')],[('presence_','one bit per optional field',T+'TypeDefMsg.h')],
 ['has_ functions','serialized bytes'])
p('C12','At most one member of a oneof is set, and it holds its own value',
 'After any sequence of sets, mutable accesses, clears, copies, assignments and deserializations, at most one member of each oneof is set, the reported selector and the has functions agree, the value read is the last one stored in that member, and a newly selected member starts from its default without any content of the member it replaced. Serializing writes exactly the selected member, also when it holds its default. A failed deserialization of a member leaves the oneof unset; different oneofs and other fields of the message do not influence each other.',
 ['histories','inputs'],'all operation sequences over all members of all oneofs, with members of every type',
 'Tests set and read each member once or twice and check one failed read.',
 [T+'TypeOneof.h',T+'FieldBasic_GetSet.h',T+'FieldMsg_GetSet.h',T+'FieldString_GetSet.h',T+'FieldBytes_GetSet.h',T+'FieldEnum_GetSet.h','generator/EmbeddedProto/Oneof.py'],
 [('init / clear of the union',T+'TypeOneof.h')],[('which_<oneof>_','selected member',T+'TypeDefMsg.h')],
 ['get_which_ functions','has_ functions','getters','serialized bytes'])
p('C13','Copies and assignments are equal to their source and independent of it',
 'A message produced by copy construction, move construction or assignment (self-assignment included), whatever the target held before, is indistinguishable from its source in every value, presence, oneof selection and in its serialized bytes, and, moves aside, the source is unchanged. Changing either one afterwards never changes the other.',
 ['histories','inputs'],'all pairs of source and target states of all message types',
 'Tests assign one string message and one nested message.',
 [T+'TypeDefMsg.h',T+'TypeOneof.h','src/RepeatedFieldFixedSize.h','src/FieldStringBytes.h','src/Fields.h'],
 [('generated copy and assignment operators',T+'TypeDefMsg.h'),('repeated field assignment','src/RepeatedFieldFixedSize.h')],
 observe=['getters and serialized bytes of source and copy'])
p('C14','A cleared message is as good as new and no old content ever resurfaces',
 'After clear, whatever happened to the message before (failed deserialization included), it is indistinguishable from a newly constructed one: same values, nothing present, no bytes serialized, and every later sequence of operations gives the same result as on a new message. More generally, content that was overwritten, shortened or cleared in a field, element, string or oneof member never reappears, neither in getters, nor in grown arrays, nor in messages received later.',
 ['histories','inputs'],'all histories of a reused message object',
 'Tests clear a message once and look at a few getters; reuse after shrinking or after an error is not tested.',
 [T+'TypeDefMsg.h',T+'TypeOneof.h','src/RepeatedFieldFixedSize.h','src/FieldStringBytes.h','src/RepeatedField.h','src/Fields.h'],
 [('generated clear',T+'TypeDefMsg.h'),('clear of arrays and strings','src/RepeatedFieldFixedSize.h')],
 observe=['getters, serialized bytes and later deserialize results'])
p('C15','A repeated field behaves as a bounded sequence',
 'Under any sequence of add, indexed set, mutable indexed access, bulk set, assignment and clear, a repeated field holds exactly the sequence a simple array model predicts: its length never exceeds the maximum, add and bulk set beyond capacity report array-full and leave the field unchanged, checked reads outside the current length report index-out-of-bound and leave the output untouched, indexes beyond the capacity address the last slot, and elements created by writing past the current end start at their default.',
 ['histories','inputs'],'all operation sequences, element types and capacities',
 'Tests run five short sequences on a three-element integer array.',
 ['src/RepeatedField.h','src/RepeatedFieldFixedSize.h',T+'FieldRepeated_GetSet.h'],
 [('bounded index and length update','src/RepeatedFieldFixedSize.h')],[('current_length_','number of elements in use','src/RepeatedFieldFixedSize.h')],
 ['return values','get_length()','element getters'])
p('C16','String and bytes fields behave as bounded byte sequences',
 'Under any sequence of set (pointer and length, C string, another field of any capacity), assignment, indexed access and clear, a string or bytes field holds exactly the bytes a simple model predicts and never more than its maximum: an over-long pointer-and-length or field set reports array-full and changes nothing, an over-long C string keeps its leading part, a null C string clears, checked reads outside the length report index-out-of-bound. The text of a string field shorter than its maximum is NUL-terminated right after its last character.',
 ['histories','inputs'],'all operation sequences, lengths and capacities',
 'Tests set a few short strings and arrays once.',
 ['src/FieldStringBytes.h',T+'FieldString_GetSet.h',T+'FieldBytes_GetSet.h'],
 [('bounded copy','src/FieldStringBytes.h')],[('current_length_','number of bytes in use','src/FieldStringBytes.h')],
 ['return values','get_length()','get_const()'])
p('C17','Read buffers and sections deliver each byte once, in order, within bounds',
 'Under any sequence of push, pop, peek, advance, direct fill and clear, the fixed-size read buffer delivers exactly the stored bytes, once and in order; failed operations report false and leave outputs untouched, advancing by any count never moves backwards and never passes the end, and reports true exactly if that many bytes were left. A section exposes at most its given number of bytes of the underlying buffer, counts down exactly, and consumes nothing beyond them, also when sections are nested.',
 ['histories','inputs'],'all operation sequences, buffer sizes, section sizes and nesting, including counts near the 32-bit limit',
 'Tests run short sequences on three-byte buffers; huge counts and nested sections are not tested.',
 ['src/ReadBufferFixedSize.h','src/ReadBufferSection.cpp','src/ReadBufferSection.h','src/ReadBufferInterface.h'],
 [('read and write index checks','src/ReadBufferFixedSize.h'),('remaining-size bookkeeping','src/ReadBufferSection.cpp')],
 [('read_index_ / write_index_','consumed and stored bytes','src/ReadBufferFixedSize.h'),('size_','bytes left in the section','src/ReadBufferSection.h')],
 ['return values and bytes delivered'])
p('C18','Write buffers and the size calculator account for every byte',
 'Under any sequence of single-byte pushes, block pushes and clears, the fixed-size write buffer holds exactly the accepted bytes in order; a push is accepted if and only if all its bytes fit, exact fit included, and a refused push changes nothing; size plus available size always equals the maximum size. The size calculator accepts everything and reports the exact number of bytes pushed since it was cleared.',
 ['histories','inputs'],'all push sequences, lengths (also near the 32-bit limit) and capacities',
 'Tests push five bytes into three-byte buffers.',
 ['src/WriteBufferFixedSize.h','src/MessageSizeCalculator.h','src/WriteBufferInterface.h'],
 [('bounds check of push','src/WriteBufferFixedSize.h')],[('write_index_','bytes stored','src/WriteBufferFixedSize.h')],
 ['return values, sizes and buffer content'])
p('C19','The library never allocates dynamic memory',
 'No operation on messages, fields or buffers - construction, setting, reading, copying, serializing, size calculation, deserializing valid or malformed input, clearing - ever requests memory from the heap.',
 ['inputs','histories'],'all operations on all message types and inputs',
 'No test observes allocation.',
 ['src/Fields.h','src/FieldStringBytes.h','src/RepeatedFieldFixedSize.h','src/MessageInterface.cpp','src/WireFormatter.h',T+'TypeDefMsg.h',T+'TypeOneof.h'],
 [('fixed-size storage in the message','src/RepeatedFieldFixedSize.h'),('placement new in oneofs',T+'TypeOneof.h')],
 observe=['allocator hooks around every library call'])
p('C20','to_string stays inside the given array and shows the message',
 'For every message and every size of the supplied character array, to_string never reads or writes outside the array or the message, leaves the array NUL-terminated when it has at least one element, and the returned view is exactly the unused rest of the array. When the array is large enough, the text names every field (only the selected member of a oneof) in order with its current value; when it is not, the text is the longest prefix of that text that fits.',
 ['inputs','configurations'],'all messages and all array sizes',
 'The to_string tests are compiled out of the test build, and use large arrays only.',
 ['src/Fields.h','src/FieldStringBytes.h','src/RepeatedField.h',T+'TypeDefMsg.h',T+'TypeOneof.h'],
 [('bounded formatting','src/Fields.h')],observe=['characters written','returned view'])
p('C21','Every supported schema generates code that compiles and works',
 'For every proto3 schema built from the supported features (all scalar types, enums with any int32 values, strings, bytes, messages; singular, optional, repeated and oneof fields; nested definitions, use before definition, imports, packages, length options and template lengths, with distinct type names), the plugin produces headers that compile as C++11 and later, in which each field has the declared name, number, type and cardinality, so that messages round-trip with a standard protobuf implementation using the same schema.',
 ['programs','configurations'],'all schemas over the supported feature set',
 'The tests generate from ten fixed schema files.',
 ['generator/EmbeddedProto/main.py','generator/EmbeddedProto/ProtoFile.py','generator/EmbeddedProto/TypeDefinitions.py','generator/EmbeddedProto/Field.py','generator/EmbeddedProto/Oneof.py',T+'Header.h',T+'TypeDefMsg.h',T+'TypeDefEnum.h'],
 [('type resolution and dependency sorting','generator/EmbeddedProto/ProtoFile.py'),('template parameter propagation','generator/EmbeddedProto/TypeDefinitions.py')],
 observe=['generated headers, compiler result, wire behaviour of the compiled code'])
p('C22','Unsupported schemas are refused and generation is reproducible',
 'A schema the plugin cannot support (proto2 syntax, messages that contain each other in a cycle, a nested message that holds its enclosing message) makes the plugin report an error to protoc and produce no files, instead of wrong code. For any supported schema the generated files depend only on the schema: repeated runs, and runs together with other schemas in one request, give the same text for each file.',
 ['programs','configurations'],'all unsupported schemas and all groupings of files into requests',
 'No test runs the plugin on an unsupported schema or compares two runs.',
 ['generator/EmbeddedProto/main.py','generator/EmbeddedProto/ProtoFile.py','generator/EmbeddedProto/Field.py'],
 [('proto2 and circular dependency checks','generator/EmbeddedProto/ProtoFile.py'),('exceptions reported in the plugin response','generator/EmbeddedProto/main.py')],
 observe=['plugin response'])
p('C23','Declared lengths become the capacities of exactly the declared fields',
 'The maximum length of every repeated, string and bytes field, at any nesting depth, is the value of its length option or else of the message template parameter that belongs to it, parameters being ordered as the fields are declared (oneof members after the other fields) with those of nested messages in place; each such field accepts exactly that many elements or bytes through its setters and from the wire, and not one more.',
 ['programs','configurations'],'all assignments of distinct lengths to the options and template parameters of a schema',
 'Tests instantiate each message with one set of lengths and look at a few of them.',
 ['generator/EmbeddedProto/TypeDefinitions.py','generator/EmbeddedProto/Field.py','generator/embedded_proto_options.proto',T+'TypeDefMsg.h','src/RepeatedFieldFixedSize.h','src/FieldStringBytes.h'],
 [('template parameter lists','generator/EmbeddedProto/Field.py')],observe=['get_max_length()','acceptance at the limit'])
p('C24','Separate messages can be used from separate threads',
 'Operations on distinct message and buffer objects share no mutable state: any number of threads working on their own objects, or only reading a common one, run without data races and each obtains exactly the result it would obtain alone.',
 ['schedules','inputs'],'all interleavings of independent operations in several threads',
 'All tests are single-threaded.',
 ['src/WireFormatter.h','src/Fields.h','src/Fields.cpp','src/FieldStringBytes.h','src/RepeatedField.h','src/MessageInterface.cpp','src/ReadBufferSection.cpp',T+'TypeDefMsg.h'],
 [('state only in objects, no globals','src/')],observe=['race detector reports','per-thread results'])
p('C25','A failure reported by a user-supplied buffer is never swallowed',
 'With any implementation of the write buffer interface, if any push reports failure during serialize - at any point, also when later pushes would succeed - serialize returns buffer-full. With any implementation of the read buffer interface, if reading or skipping fails inside a field during deserialize, an error is returned; only a failed read at the first byte of a top-level field counts as the end of the message.',
 ['fault_sequences','inputs'],'every failure position in every serialization and deserialization',
 'Tests fail the buffer at three fixed points.',
 ['src/WireFormatter.h','src/FieldStringBytes.h','src/RepeatedField.h','src/MessageInterface.cpp',T+'TypeDefMsg.h'],
 [('error checks after every buffer access','src/WireFormatter.h')],observe=['return values and buffer call log'])
p('C26','Scalar wire primitives are exact inverses over their whole range',
 'For every value of every scalar type, the public encoding primitives (varint, zigzag, fixed-size, floating point, bool, enum, tag) produce the bytes the protobuf encoding defines (five bytes are also allowed for a negative int32 or enum), and the matching decoding primitives return the same value and consume exactly those bytes; on failure the output value is left untouched and the documented error is returned. Conversions, comparisons and assignments of scalar field objects behave as those of the plain value.',
 ['inputs'],'the full 32- and 64-bit ranges and all float bit patterns',
 'Tests check about six values per type.',
 ['src/WireFormatter.h','src/Fields.h'],
 [('varint, zigzag and fixed encoders','src/WireFormatter.h'),('scalar field object','src/Fields.h')],
 observe=['bytes produced and values decoded'])
p('C27','Serialization is a pure function of the message value',
 'Serializing, computing the size and reading never change the message. Two messages of the same type with equal values, presence and oneof selections serialize to identical bytes, whatever histories led to those values and however often they were serialized before.',
 ['histories','inputs'],'all pairs of histories leading to equal values',
 'Every test serializes a message once.',
 [T+'TypeDefMsg.h','src/RepeatedField.h','src/FieldStringBytes.h','src/MessageInterface.cpp','src/Fields.cpp'],
 [('const serialize and size calculation',T+'TypeDefMsg.h')],observe=['serialized bytes'])
p('C28','The result of decoding depends only on the bytes, not on the buffer',
 'The same bytes give the same result code and the same message content from the fixed-size read buffer, from a section of a larger buffer and from any other conforming implementation of the read buffer interface. A message decoded from a section never consumes bytes that follow the section, so that back-to-back messages in one buffer are each decoded exactly.',
 ['inputs','configurations'],'all byte strings, valid or not, and all conforming buffers',
 'Tests decode from mocks only; the shipped fixed-size read buffer is never used to decode a message.',
 ['src/ReadBufferFixedSize.h','src/ReadBufferSection.cpp','src/MessageInterface.cpp','src/RepeatedField.h',T+'TypeDefMsg.h'],
 [('section wrapper','src/ReadBufferSection.cpp')],observe=['return values, getters and bytes left in the buffer'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P), max(len(d['title']) for d in P))
