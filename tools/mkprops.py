import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
WF="src/WireFormatter.h";MI="src/MessageInterface.cpp";RF="src/RepeatedField.h";RFF="src/RepeatedFieldFixedSize.h"
SB="src/FieldStringBytes.h";F="src/Fields.h";TM="generator/EmbeddedProto/templates/TypeDefMsg.h";TO="generator/EmbeddedProto/templates/TypeOneof.h"
RS="src/ReadBufferSection.cpp";RB="src/ReadBufferFixedSize.h";WB="src/WriteBufferFixedSize.h";SC="src/MessageSizeCalculator.h"
GS="generator/EmbeddedProto/templates/Field*_GetSet.h"; SE="generator/EmbeddedProto/templates/Field*_Serialize.h"; DE="generator/EmbeddedProto/templates/Field*_Deserialize.h"
p("C01","A message sent over an intact link arrives with exactly the same content",
"When a device serialises a message and a peer parses the complete bytes into a new or cleared message of the same type, the call succeeds on both sides and the peer's message has the same content: every field value, element count, string length, presence flag and active oneof member. This holds for every content the setters can build, whatever output and input buffers are used, however the bytes are fragmented or delayed, and however the sending, transmitting, receiving and parsing activities interleave; once the output has room again, a message refused for lack of room is delivered by a retry.",
["inputs","schedules","histories","configurations"],"every message type and content, every fragmentation and timing of the link, every interleaving of the nodes' tasks at buffer calls, every earlier use of the objects",
"The tests serialise a few hand-written values into mocks that accept each byte and compare with literal bytes; no test connects a sender and a receiver, varies buffers or timing, or reuses objects.",
[TM,WF,MI,RF,SB,SE,DE],[("generated serialize()/deserialize()",TM),("tag, varint, fixed and length encoding",WF),("length-delimited nesting",MI),("packed/unpacked repeated fields",RF)],["sender's content model vs receiver's getters"])
p("C02","Messages interoperate in both directions with standard protobuf peers",
"Bytes produced by serialising a message decode, in an independent standard protobuf implementation with the same schema, to the same field values; and any encoding such a peer may legally send for content that fits the configured capacities (fields in any order, a singular field sent more than once, a sub-message sent in several pieces, packed repeated fields in several runs, varints longer than minimal up to the longest form of their type, unknown fields in between) parses successfully to what the protobuf rules say. Repeated numbers are exchanged in packed form. Only the sign of a negative zero in a float or double without explicit presence may be lost.",
["inputs","histories"],"every content and every legal encoding a peer may choose, every reordering, duplication and splitting of fields",
"The tests compare a handful of literal byte strings; they never run another protobuf implementation and never vary field order, duplication or splitting.",
[WF,F,RF,MI,TM,SB],[("wire type, zigzag, varint, little-endian fixed",WF),("last-one-wins and append on repeated occurrences",TM),("packed runs",RF)],["Google libprotobuf peer in the same process"])
p("C03","The announced size is exactly what is written and exactly what is needed",
"The serialised size a message reports equals the number of bytes a successful serialisation hands to the output; an output with exactly that much room left succeeds, and an output with any less room yields the buffer-full error. This holds for every message content and for output that already holds other data, including the fixed-size output buffer shipped with the library.",
["inputs","configurations","fault_sequences"],"every content, every amount of free room from zero to more than needed, every kind of output buffer and prior fill",
"The tests check the size of a few messages and one or two too-small buffers through mocks; the boundary 'room equals size' is not tried for strings, bytes, nested or repeated fields.",
[SC,"src/Fields.cpp",MI,RF,SB,WB,TM],[("dry-run serialisation into a counting buffer",SC),("room checks before length-delimited content",MI),("bulk push",WB)],["serialised size vs bytes accepted"])
p("C04","Serialisation never claims success for output that was refused",
"If the output refuses any byte or block at any point, whether it is full for good or only momentarily, serialisation returns the buffer-full error, and what the output had accepted up to that point is a prefix of the message's full encoding; after the refusal no further field, block or number is offered, at most the last byte of the number that was being written. The message itself is unchanged, and serialising it again into an output with room gives the full encoding.",
["fault_sequences","inputs","schedules"],"every position at which the output refuses, single or repeated refusals, outputs that drain while serialisation runs, every content",
"Refusals are tested by mocks at one or two chosen pushes, always lasting; a refusal in the middle of a multi-byte varint followed by an accepted byte is never tried.",
[WF,MI,RF,SB,F,TM,SE],[("every push result becomes an error",WF),("error short-circuits the remaining fields",SE)],["bytes accepted by the output vs full encoding"])
p("C05","Input that ends or stalls early is never mistaken for a complete message",
"If the input runs out (for good, or because the bytes have not arrived yet) inside a field, in its tag, its value, its length, its content or anywhere inside a nested message or packed run, parsing returns an end-of-buffer error and not success. If parsing reports success, the message content is exactly what the bytes consumed say, and after the input has refused a byte the call takes no further bytes from it.",
["crash_points","fault_sequences","schedules","inputs"],"every message, every cut position, every arrival schedule of the bytes relative to the parse, every input buffer",
"The tests cut the input of only a few fields at one place each; cuts inside nested messages, packed runs, unknown fields or tags, and bytes arriving during the parse, are not tried.",
[WF,MI,RF,RS,SB,TM,RB],[("end-of-buffer propagated from each byte read",WF),("section of declared length must be used up",RS),("truncated nested message detection",MI)],["parse result vs reference decoder on the consumed bytes"])
p("C06","Corrupted input yields the right content or a documented error, never wrong data",
"For any byte sequence, including valid messages damaged by flipped bits, lost, repeated, inserted or swapped bytes, parsing either succeeds with exactly the content the protobuf rules assign to those bytes or returns an error; it returns an error for every malformed sequence. The error is the documented one for the first fault met: end of buffer, invalid wire type (including group markers), array full, invalid field id, overlong varint.",
["inputs","fault_sequences"],"every byte sequence given to every message type, reached by arbitrary damage to valid traffic",
"The tests feed about ten malformed inputs; the space of damaged frames is unbounded and errors depend on where in a nested structure the damage lands.",
[WF,MI,RF,RS,SB,TM,TO,F],[("wire type check per field","src/Fields.h"),("tag validation",WF),("unknown field skipping",MI)],["verdict and content vs reference decoder"])
p("C07","Parsing and serialising always finish in work bounded by the data",
"For any input, however hostile its length fields, parsing returns after a number of input operations bounded by a small constant times the number of bytes offered, and the read position only moves forward and never past the end of the data; serialising likewise does work bounded by its own output and nesting. No input, buffer state or refusal pattern can make a call loop or re-read consumed bytes.",
["inputs","fault_sequences","configurations"],"every byte sequence including extreme lengths, every input and output buffer, every refusal pattern",
"No test supplies hostile lengths near the 32-bit limit, and termination on all inputs cannot be sampled by hand-written cases.",
[WF,RB,RS,MI,RF,TM],[("bounded varint length",WF),("overflow-free skipping in the fixed-size input buffer",RB),("section limits",RS)],["operation counter and read position at the input seam"])
p("C08","Fixed capacities are never exceeded and memory outside is never touched",
"Whatever is set, appended, assigned, indexed or parsed, no string, byte, repeated or buffer field ever holds more than its configured maximum, no memory outside the object is read or written, and every request that does not fit is refused with the array-full error (or, where the call documents it, truncated or limited to the last element). A refused set, assignment or append leaves the field as it was, and reading an element beyond the current length through the checked getter returns the index-out-of-bound error without touching the output.",
["inputs","histories","fault_sequences"],"every sequence of setter, assignment, indexing, append and parse calls with any lengths and indices, followed by any other use",
"Tests call each setter a few times with one oversize value; they cannot cover sequences, and out-of-bounds accesses do not show without instrumentation.",
[SB,RFF,RF,GS,RB,WB],[("length comparison before copying",SB),("index limiting",RFF),("array-full on append",RFF)],["getters, canaries around objects, address and undefined-behaviour sanitizers"])
p("C09","No library operation uses dynamic memory",
"Constructing, copying, assigning, changing, clearing, measuring, serialising, parsing and destroying messages, on success and on every error path, never requests heap memory, so all of them work with an allocator that always fails.",
["histories","fault_sequences","inputs"],"every operation sequence, content, and fault",
"Tests run with a working heap and cannot notice an allocation.",
["src",TM,TO,RFF,SB],[("statically sized storage",RFF),("placement construction in oneof unions",TO)],["allocator seam armed for the duration of each library call"])
p("C10","Tasks working on different messages and buffers never affect each other",
"When several tasks or interrupt handlers build, copy, measure, parse and serialise at the same time, each on its own messages and buffers, or read and serialise the same unchanging message, every call returns the same result, content and bytes as if it had run alone, for every interleaving: preemption at any point inside a library call, in a buffer operation or between two of its instructions, and any nesting of one call inside another.",
["schedules","histories"],"every interleaving and nesting of the calls of two or more tasks and interrupt handlers",
"All tests are single-threaded and never re-enter the library from a buffer.",
["src",TM],[("no shared mutable state in library or generated code",WF)],["per-task results of interleaved run vs solo run"])
p("C11","After a failed parse, clearing the message makes it as good as new",
"After parsing has failed for any reason at any point, the message can be safely read, copied, serialised and destroyed, and clearing it gives the default content; the next message parsed into it then has exactly the content that parsing into a brand-new object would give. The same holds for the fixed-size input and output buffers after they are cleared.",
["crash_points","histories","fault_sequences"],"every failure cause and position, every earlier content of the object, every following traffic",
"Tests use a new object for each parse; none continues using an object after an error.",
[TM,TO,RFF,SB,RB,WB,GS],[("clear() of every field kind",TM),("oneof reset on parse failure",TO)],["content after clear vs default; next parse vs fresh object"])
p("C12","Message objects behave as independent values through any history of calls",
"After any sequence of setting, clearing, modifying through references, copying, assigning and moving messages and their parts, every getter returns the value last written to that field in that object (or the type's default), copies equal their source at the time of copying, and changing one object or field never changes another. Equal contents serialise to identical bytes regardless of how they were reached.",
["histories","inputs"],"every sequence of public operations on any number of message objects, including self-assignment, nested and repeated parts",
"Tests exercise setters and copies in fixed short sequences on a few types.",
[TM,GS,RFF,SB,F,TO],[("generated copy and assignment",TM),("element-wise repeated assignment",RFF)],["getters vs in-memory reference model after each call"])
p("C13","At most one member of a oneof is set, with the value last given to it",
"At every moment, through any history of setting, clearing, parsing (successful or failing), copying and assigning, a oneof reports at most one member as set, that member holds the value last set or parsed (later occurrences on the wire win; repeated occurrences of the same sub-message merge), and exactly the set member is serialised even if its value is the default. Switching members leaves nothing of the previous member, and a failed parse of a member never leaves a half-parsed value reported as set.",
["histories","fault_sequences","inputs"],"every history of operations and faulty frames on oneofs of every member kind",
"Tests switch between members in a few fixed orders and have one failing parse.",
[TO,TM,GS],[("which-member discriminator and placement construction",TO),("clear on failed parse",TO)],["has/which/getters vs model"],[("which oneof discriminator","field number of the active member or not set",TO)])
p("C14","Explicit presence of optional fields is tracked and transmitted exactly",
"An optional field is reported present exactly when it was set, accessed for modification or received since the last clear, independently of its value and of every other optional field, whatever their number; copies and assignments carry it. A present field is transmitted even when its value is the default or empty and an absent one never is, so the receiver sees the same presence.",
["histories","inputs"],"every history of set, clear, mutable access, copy, parse and transmission over messages with any number of optional fields",
"Tests set and clear a few optional fields, and check a 33-field message for individual bits only in isolation.",
[TM,GS,SE,DE,SB,MI],[("presence bit words with index and mask",TM)],["has accessors vs model, both ends of the link"],[("presence bits","one bit per optional field",TM)])
p("C15","Byte buffers are faithful queues under any producer/consumer interleaving",
"The fixed-size input buffer, the fixed-size output buffer, the bounded view on an input and the size counter deliver or store exactly the bytes given, in order, none lost, repeated or invented, for any interleaving of producer and consumer calls; each call's result and the reported sizes match the number of bytes actually stored, readable or free. A push or skip that does not fit is refused (a block push leaves the buffer unchanged), a bounded view never reads beyond its bound, and peeking never moves the read position, and a failed read takes no byte from the input and leaves the output variable alone.",
["schedules","histories","inputs"],"every sequence and interleaving of push, block push, bulk load, pop, peek, single and multi advance, clear with any arguments up to the 32-bit limit",
"Tests make short fixed call sequences on three-byte buffers; exact-fit blocks, large skips and interleaved production are not covered.",
[RB,WB,RS,SC,"src/ReadBufferInterface.h","src/WriteBufferInterface.h"],[("read and write index",RB),("section remaining count",RS)],["each call vs queue model"],[("read/write index","bytes consumed and stored",RB)])
p("C16","A nested message or length-delimited field never reaches outside its bounds",
"Content of a nested message, string, bytes, packed or unknown length-delimited field is taken only from the bytes its length declares: whatever those bytes are and whatever follows, parsing never uses a byte beyond the declared end for the inner field or an inner byte for the enclosing message. Hence sibling fields after a well-formed inner field are parsed to their own values, and an inner field whose length exceeds its enclosing scope or whose content does not end with it is an error.",
["inputs","fault_sequences"],"every nesting depth, every wrong length at every level, every inner content, every following siblings",
"Tests nest well-formed messages two levels deep; wrong inner lengths are not tried.",
[RS,MI,RF,SB,TM],[("bounded view per length-delimited field",RS)],["content and error vs reference decoder; bytes taken from the enclosing input"])
p("C17","Unknown fields from newer peers are skipped without side effects",
"Fields whose numbers the receiver does not know, of any supported wire type, value, size and position (top level, inside nested, repeated or oneof messages), are skipped: parsing succeeds and all known fields have the same content as if the unknown fields had not been sent. So devices with older and newer versions of a schema exchange their common fields correctly in any mix and through any sequence of upgrades and downgrades.",
["inputs","histories","configurations"],"every mix of schema versions, every upgrade/downgrade history, every unknown field content and placement",
"Tests insert one unknown field of each wire type into one flat message.",
[MI,RS,TM,WF],[("skip by wire type",MI),("default case of the field switch",TM)],["content of common fields on both versions"])
p("C18","Text rendering stays inside the caller's buffer and shows the message's content",
"Rendering a message as text never writes outside the character buffer it was given, whatever the buffer's size (including zero and one) and the message's content, and never reads outside the message; with too little room the text is the longest terminated prefix of the full rendering that fits, and the returned view is the unused rest of the area. With enough room the rendering shows the current values of all fields of the message and only those (the text of a string up to an embedded NUL character), nested as in the message and separated by single commas. A message names each of its field numbers by that field's name, and no other number by any of them.",
["inputs","configurations","fault_sequences"],"every content, every size of the output area",
"The tests for rendering are compiled only with an option that the build leaves off, and use one large buffer.",
[F,SB,RF,TM,TO],[("remaining-room bookkeeping after each formatted write",F)],["guarded text area, sanitizers"])
p("C19","The generator's answer depends only on the request, and lost output is an error",
"For the same request the code generator produces byte-identical output whatever the hash seed, environment, working directory, pipe fragmentation or number of earlier runs. Concurrent generator processes do not influence each other's answers. If its output cannot be delivered (full device, closed pipe), its request is unreadable or cut off in the middle of a record, or reading a template or allocating memory fails on the way, it ends with a failure (a failure status or an answer that carries an error) and never as if it had succeeded with another answer.",
["schedules","fault_sequences","configurations"],"every hash seed and environment, every fragmentation of the request, every point at which input or output fails",
"The test build runs the generator once per file with whatever hash seed it gets and a healthy pipe.",
["generator/EmbeddedProto/main.py","generator/EmbeddedProto/ProtoFile.py","generator/EmbeddedProto/TypeDefinitions.py","generator/EmbeddedProto/Field.py"],[("sorted topological order","generator/EmbeddedProto/ProtoFile.py"),("plugin entry point","generator/EmbeddedProto/main.py")],["plugin stdout and exit status"])
p("C20","Data that was cleared, shortened or replaced never comes back",
"Once a field, element or tail of a string, byte or repeated field has been cleared, shortened by assignment or replaced, its old value never reappears: not when the field grows again by indexing, not in elements parsed later, not in the text or bytes past a shorter value, not in copies, and not on the wire. Elements exposed by growing a field have the type's default value.",
["histories","inputs","fault_sequences"],"every history of shrinking and growing operations, copies, failing and succeeding parses on reused objects",
"Tests never shrink and regrow a field of one object.",
[RFF,RF,SB,TM,TO],[("clearing of unused slots",RFF),("clearing of the unused tail",SB)],["getters, serialised bytes vs model"])
p("C21","Parsing into a used message merges as protobuf prescribes",
"Parsing further frames into a message without clearing it gives the protobuf merge of its content and the frames in order: singular values are replaced, sub-messages merged field by field, repeated fields appended, oneofs switched; fields not in a frame keep their content. Parsing the concatenation of frames in one call gives the same result as parsing them one after the other.",
["histories","inputs","schedules"],"every earlier content, every sequence of frames including duplicated and reordered ones, every split into calls",
"Tests parse one frame into a new object.",
[TM,TO,RF,MI,SB],[("deserialize without implicit clear",TM),("append on repeated",RF)],["content vs reference merge"])
# not applicable
p("C30","Zigzag and varint conversions are exact inverses over their whole domain",
"For every 32- and 64-bit value, zigzag decoding inverts zigzag encoding and varint decoding inverts varint encoding, and small magnitudes get short encodings.",
["inputs"],"all 2^32 and 2^64 values","Tests sample some boundary values.",
[WF],[("ZigZagEncode/ZigZagDecode, Serialize/DeserializeVarint",WF)])
p("C31","Every valid proto3 schema yields code that compiles with the declared API",
"For every proto3 file without recursive messages the generator emits headers that compile as C++11 and later and offer the documented accessors with the declared types, numbers and capacities; unsupported schemas are refused with a message.",
["programs"],"all schemas","The tests generate about ten schemas.",
["generator/EmbeddedProto/ProtoFile.py","generator/EmbeddedProto/TypeDefinitions.py","generator/EmbeddedProto/Field.py",TM],[("topological sorting and template parameters","generator/EmbeddedProto/ProtoFile.py")])
p("C32","Encoding is independent of the host's byte order and integer widths",
"The produced and accepted bytes are the same on little- and big-endian targets and on targets with 16-bit int.",
["configurations"],"all target platforms","The tests run on one platform.",
[WF],[("shift-based fixed-width encoding",WF)])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
