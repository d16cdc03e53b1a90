import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","AMF3 variable-length integers encode canonically and decode exactly",
"Every integer in the signed 29-bit range is encoded as the shortest AMF3 variable-length form (1 to 4 bytes, big-endian 7-bit groups, a full 8-bit last byte in the 4-byte form), and decoding those bytes yields the same integer (signed mode) or the same 29-bit pattern (unsigned mode) and consumes exactly those bytes. An integer outside that range is refused with an overflow error whatever was encoded before it. Decoding never consumes more than four bytes, whatever the input.",
["inputs","histories"],"all integers (unbounded), all byte strings, any history of earlier encodings (the encoder memoises)",
"Tests sample about a dozen integers and never vary what was encoded before; 2^29 values and the memo table are out of their reach.",
["pyamf/amf3.py"],[("integer encoder","pyamf/amf3.py:encode_int"),("integer decoder","pyamf/amf3.py:decode_int")],
[("memo table of encoded integers","integer -> bytes already produced","pyamf/amf3.py:ENCODED_INT_CACHE")],["pyamf.amf3.encode_int","pyamf.amf3.decode_int"])

p("C02","Fixed-width numbers written to a byte stream read back unchanged",
"For every fixed-width numeric type of the byte stream (8/16/24/32-bit signed and unsigned integers, 32/64-bit floats) and every byte order, writing a value in range emits exactly that many bytes in that byte order at the current position, and reading them back in the same byte order gives the value, with its sign. A value of the wrong type raises a type error and an integer out of range raises an overflow error, and in both cases nothing is written.",
["inputs","configurations"],"all values of any type, all four byte orders, every stream content and position",
"Tests try a few boundary values per type and mostly one byte order; errors are checked for raising but not for leaving the stream untouched.",
["pyamf/util/pure.py"],[("typed readers and writers","pyamf/util/pure.py:DataTypeMixIn")],
[("byte order","selects the layout","pyamf/util/pure.py:DataTypeMixIn.endian")],["pyamf.util.BufferedByteStream"])

p("C03","Byte stream reads never invent, lose or move past data",
"For every position within the content, a read of a given length returns exactly the next bytes and advances by that many, and a read past the end raises an I/O error without moving the position; peeking and appending never move the position, and peeking returns what a read would (or less, at the end). Length, position, remaining count and at-end test always agree with the stored content after any sequence of operations, writes overwrite in place or extend, consuming keeps exactly the unread tail with the position at its start, truncating keeps exactly the requested prefix, and concatenating two streams yields both contents and leaves both operands unchanged.",
["inputs","histories"],"all stream contents, positions, lengths and operation sequences",
"Tests run a handful of fixed sequences on short strings; agreement of the cached length with the content depends on the operation history.",
["pyamf/util/pure.py"],[("stream","pyamf/util/pure.py:StringIOProxy"),("bounds-checked stream","pyamf/util/pure.py:BufferedByteStream")],
[("cached length","length of the buffer unless flagged stale","pyamf/util/pure.py:StringIOProxy._len/_len_changed")],["pyamf.util.BufferedByteStream"])

p("C04","AMF0 scalar values survive encoding and decoding",
"Encoding any null, undefined, boolean, number, string (byte or unicode, of any length, with the long-string form above 65535 bytes) or date as AMF0 and decoding the bytes gives back the same value (numbers by numeric value, byte strings as their text) and consumes exactly the bytes produced; an integer beyond the exact range of a double comes back as the nearest double. Each value is written in the AMF0 layout for its type: the one-byte marker followed by big-endian content and, for strings, the UTF-8 byte length.",
["inputs"],"all scalar values, all string lengths up to 2^32-1",
"Tests compare fixed byte strings for a few values per type; the long-string boundary and non-ASCII lengths are sampled at one or two points.",
["pyamf/amf0.py","pyamf/codec.py"],[("scalar writers","pyamf/amf0.py:Encoder.writeNumber/writeBoolean/writeBytes/writeString/writeDate"),("scalar readers","pyamf/amf0.py:Decoder"),("type selection","pyamf/codec.py:Encoder.getTypeFunc")],(),["pyamf.encode/pyamf.decode with encoding=AMF0"])

p("C05","AMF3 scalar values survive encoding and decoding",
"Encoding any null, undefined, boolean, integer, float, string (byte or unicode), date or byte array as AMF3 and decoding the bytes gives back an equal value of the corresponding type and consumes exactly the bytes produced. Integers outside the 29-bit range travel as doubles, a non-empty string is sent inline once and by reference afterwards, and an empty string is never referenced.",
["inputs"],"all scalar values; all sequences of strings in one message",
"Tests compare fixed byte strings for a few values per type; the choice between integer and double, and inline and referenced string, depends on unbounded values and history.",
["pyamf/amf3.py","pyamf/codec.py"],[("scalar writers","pyamf/amf3.py:Encoder.writeInteger/writeNumber/serialiseBytes/writeDate/writeByteArray"),("scalar readers","pyamf/amf3.py:Decoder.readInteger/readString/readDate/readByteArray")],(),["pyamf.encode/pyamf.decode with encoding=AMF3"])

p("C06","AMF0 containers and objects survive encoding, sharing included",
"Encoding any graph of lists, tuples, dictionaries, mixed arrays, typed and anonymous objects, dates and XML as AMF0 and decoding it gives an equal graph: same elements in the same order, same keys, and a container or object reached twice (or through a cycle) decodes to one object reached twice. Every reference index the encoder emits names, in the decoder, the object the encoder meant, and a key AMF0 cannot represent (over 65535 bytes) is refused. Names are texts (byte strings of their UTF-8 form after decoding), and an integer-like name of a mixed array is its integer key.",
["inputs","histories"],"all finite value graphs with sharing and cycles, all nesting depths",
"Tests encode a few hand-written graphs; reference numbering depends on everything encoded before in the message.",
["pyamf/amf0.py","pyamf/codec.py"],[("container writers","pyamf/amf0.py:Encoder.writeList/writeMixedArray/writeObject/_writeDict/writeReference"),("container readers","pyamf/amf0.py:Decoder.readList/readMixedArray/readObject/readTypedObject/readReference"),("reference table","pyamf/codec.py:IndexedCollection")],
[("reference table","objects in order of first appearance","pyamf/codec.py:Context._objects")],["pyamf.encode/pyamf.decode with encoding=AMF0"])

p("C07","AMF3 containers and objects survive encoding, sharing included",
"Encoding any graph of lists, tuples, dictionaries, mixed arrays, typed (static, dynamic, externalizable) and anonymous objects, dates, byte arrays and XML as AMF3 and decoding it gives an equal graph with the same sharing and cycles. The string, object and class-definition tables of encoder and decoder stay in lockstep, so every index the encoder emits names, in the decoder, the string, object or class the encoder meant. A value AMF3 cannot represent is refused with an error instead of producing a stream that decodes to something else (a mixed array without names is a list, and its other integer keys are names).",
["inputs","histories"],"all finite value graphs with sharing and cycles, all class configurations, all nesting depths",
"Tests encode a few hand-written graphs; the three tables depend on everything encoded before in the message.",
["pyamf/amf3.py","pyamf/codec.py"],[("container writers","pyamf/amf3.py:Encoder.writeList/writeDict/writeObject/writeXML"),("container readers","pyamf/amf3.py:Decoder.readArray/readObject/_getClassDefinition/readXML"),("tables","pyamf/amf3.py:Context")],
[("string, object, class tables","values in order of first appearance","pyamf/amf3.py:Context")],["pyamf.encode/pyamf.decode with encoding=AMF3"])

p("C08","Reference tables number values in order and unknown references are errors",
"Values added to a reference table get consecutive indices from zero, a lookup by index returns the very value added there, a lookup by value returns its index or reports absence, and clearing empties every table. Decoding a reference to an object, string or class definition that has not appeared in the message raises a reference error; it never yields a value.",
["inputs","histories"],"all sequences of additions, lookups and clears; all reference indices in decoded input",
"Tests add two or three values; dangling references are tested for AMF0 and plain AMF3 objects only.",
["pyamf/codec.py","pyamf/amf3.py","pyamf/amf0.py"],[("tables","pyamf/codec.py:IndexedCollection, ByteStringReferenceCollection"),("lookups","pyamf/amf3.py:Decoder.readDate/readArray/readObject/readXML/readByteArray/readString/_getClassDefinition"),("AMF0 lookup","pyamf/amf0.py:Decoder.readReference")],
[("list + index map","value at i, and identity/bytes -> i","pyamf/codec.py:IndexedCollection.list/.dict")],["pyamf.decode","pyamf.codec.Context"])

p("C09","Attributes hidden by class configuration never leave the process",
"When an object is encoded, an attribute that its class configuration (or that of a base class) excludes is never written; static attributes are always all written, with undefined standing in for a missing one, in the order announced in the class definition; a class declared non-dynamic (itself, or by its closest base class that says) writes nothing but its static and declared property attributes. Attributes not so restricted are all written with their values, a proxied attribute is written wrapped, and a synonym attribute is written under its external name.",
["inputs","configurations"],"all class configurations (static, exclude, readonly, dynamic, proxy, synonym, inheritance), all instance contents",
"Tests try one option at a time on two or three attributes; combinations and inheritance are the hard part.",
["pyamf/alias.py","pyamf/amf3.py","pyamf/amf0.py"],[("attribute selection","pyamf/alias.py:ClassAlias.getEncodableAttributes"),("configuration compilation","pyamf/alias.py:ClassAlias.compile/_compile_base_class/_finalise_compile")],
[("compiled attribute sets","static, exclude, readonly, encodable, decodable, synonyms","pyamf/alias.py:ClassAlias")],["pyamf.encode","ClassAlias.getEncodableAttributes"])

p("C10","Incoming data cannot set attributes the class configuration forbids",
"When an object is decoded, an attribute that its class configuration excludes or marks read-only is never set from the incoming data, under its own name or a synonym; a class declared non-dynamic is only ever given its static and declared property attributes. Every permitted attribute in the data is set to the decoded value, with synonyms mapped to the local name and proxied values unwrapped, and a missing static attribute makes decoding fail rather than be silently skipped.",
["inputs","configurations"],"all class configurations and all incoming attribute dictionaries",
"Tests try one option at a time; hostile attribute names and combinations of options are unbounded.",
["pyamf/alias.py","pyamf/util/__init__.py"],[("attribute filtering","pyamf/alias.py:ClassAlias.getDecodableAttributes/applyAttributes"),("attribute setting","pyamf/util/__init__.py:set_attrs")],
[("compiled attribute sets","see C09","pyamf/alias.py:ClassAlias")],["pyamf.decode","ClassAlias.applyAttributes"])

p("C11","Class, alias, type, error and loader registries stay consistent",
"A registered class is found under its alias (any text, ASCII or not) and under the class itself, by the same entry, until it is unregistered, after which neither lookup finds it; unregistering removes exactly that registration, and registering again replaces it. An invalid class, alias type, loader, type or error class, or a type or error code already taken, is refused and the registries are unchanged; a class loader's answer for an unknown alias is registered, and an alias no loader and no module knows is an error.",
["inputs","histories"],"all sequences of registrations, lookups and removals",
"Tests make one or two registrations each; consistency of the two-key registry depends on the operation history and error paths.",
["pyamf/__init__.py"],[("registries","pyamf/__init__.py:register_class/unregister_class/get_class_alias/load_class/register_class_loader/add_type/add_error_class/register_alias_type")],
[("registry","class and alias -> entry","pyamf/__init__.py:CLASS_CACHE")],["pyamf.register_class","pyamf.get_class_alias"])

p("C12","Remoting envelopes survive encoding and decoding",
"Encoding any remoting envelope (version, headers with their must-understand flags, requests and responses with any identifiers, targets and bodies) and decoding the bytes gives an envelope with the same version, the same headers and flags, and the same messages in the same order with the same identifiers, targets, statuses and bodies (a response with an error status carries an error fault with the same fields, also if its body was sent as a plain object). Distinct identifiers and targets not themselves ending in a status suffix are presupposed. Header and message counts and, in strict mode, the byte length of every header value and body are written exactly.",
["inputs"],"all envelopes: any number of headers and messages, any unicode names, any encodable bodies",
"Tests encode single-header, single-body envelopes with ASCII names.",
["pyamf/remoting/__init__.py"],[("envelope codec","pyamf/remoting/__init__.py:encode/decode/_write_header/_write_body/_read_header/_read_body"),("status mapping","pyamf/remoting/__init__.py:get_fault_class, Response")],(),["pyamf.remoting.encode","pyamf.remoting.decode"])

p("C13","Malformed remoting messages are refused and messages are decoded in isolation",
"Decoding an envelope whose version is above 9, which is truncated anywhere, or (in strict mode) whose header or body length disagrees with its content or which has bytes left over, raises an error and never returns an envelope. References never resolve across message bodies: each body starts with empty reference tables, on encoding and on decoding, so a body means the same alone or behind any other headers and bodies.",
["inputs","crash_points"],"all byte strings, every truncation point, all envelopes with several bodies",
"Tests try one wrong length, one bad version and a few truncations; a body referring into another is not tested.",
["pyamf/remoting/__init__.py"],[("validation","pyamf/remoting/__init__.py:decode/_read_header/_read_body"),("context reset","pyamf/remoting/__init__.py:decode/encode")],(),["pyamf.remoting.decode"])

p("C14","Remote callers can only reach methods the server exposes",
"A request is executed only if its target names a registered service, or a registered service followed by one method; the method reached is exactly the named one, private (underscore-prefixed) methods and nested attribute paths are never called, and any other target is answered with a fault without running service code. Registering refuses duplicate names and non-services, and a removed service is no longer reachable.",
["inputs","histories"],"all target strings, all service objects, all register/unregister histories",
"Tests try a few good and bad names; the target comes from the network and is unbounded.",
["pyamf/remoting/gateway/__init__.py"],[("lookup","pyamf/remoting/gateway/__init__.py:BaseGateway.getServiceRequest"),("method lookup","pyamf/remoting/gateway/__init__.py:ServiceWrapper._get_service_func/getMethods"),("registry","pyamf/remoting/gateway/__init__.py:BaseGateway.addService/removeService")],
[("service registry","name -> service","pyamf/remoting/gateway/__init__.py:BaseGateway.services")],["BaseGateway.getProcessor","BaseGateway.callServiceRequest"])

p("C15","No protected service code runs before its authenticator accepts",
"When an authenticator applies to a request (configured on the method, else on its service, else on the gateway), neither the service method nor the preprocessor runs unless that authenticator accepted the credentials of this request; a refusal or a failure of the authenticator is answered with an authentication or server fault. A more specific authenticator overrides a more general one (the method's is the one configured on the class, module or object the service was made of), and the raw request is passed only to callables that ask for it.",
["inputs","configurations"],"all credential values, authenticator results and failures, all combinations of the three configuration levels",
"Tests combine one authenticator with one outcome; precedence and failure combinations are sampled thinly.",
["pyamf/remoting/gateway/__init__.py","pyamf/remoting/amf0.py","pyamf/remoting/amf3.py"],[("authentication","pyamf/remoting/amf0.py:RequestProcessor.authenticateRequest/__call__"),("precedence","pyamf/remoting/gateway/__init__.py:ServiceWrapper.getAuthenticator, BaseGateway.getAuthenticator"),("execution","pyamf/remoting/gateway/__init__.py:BaseGateway.authenticateRequest/preprocessRequest/callServiceRequest")],(),["gateway with an authenticator"])

p("C16","One failing request cannot take down or alter the rest of a batch",
"Whatever exception other than a process exit or keyboard interrupt a service, preprocessor or authenticator raises, each request of an envelope gets exactly one response under its own identifier, in request order: a result for a call that returned and a fault naming the error for one that raised, whatever the other requests do. A fault carries the error's registered code (or its type name) and message, and a stack trace only when debugging is on.",
["inputs","fault_sequences"],"all batches, all exceptions raised at any of the callbacks, debug on or off",
"Tests use single-request envelopes with a few exception types.",
["pyamf/remoting/amf0.py","pyamf/remoting/amf3.py","pyamf/remoting/gateway/wsgi.py"],[("fault containment","pyamf/remoting/amf0.py:RequestProcessor.__call__, build_fault"),("AMF3 messages","pyamf/remoting/amf3.py:RequestProcessor.__call__, build_fault"),("batch loop","pyamf/remoting/gateway/wsgi.py:WSGIGateway.getResponse")],(),["WSGIGateway.getResponse"])

p("C17","The HTTP endpoints answer every request with a well-formed HTTP response",
"The WSGI and Django endpoints answer a non-POST request with a client error (400 by WSGI, 405 by Django), a body that is not a complete AMF message (an absent one included) with 400, any other failure while decoding, processing or encoding with 500, and a processed envelope with 200, the AMF content type and a content length equal to the body's byte length; a response starts exactly once and error details appear only when debugging is on. An unexpected exception never propagates to the HTTP server.",
["inputs","fault_sequences"],"all request methods and bodies, failures at each processing stage",
"Tests exercise one failure per stage with fixed bodies.",
["pyamf/remoting/gateway/wsgi.py","pyamf/remoting/gateway/django.py"],[("WSGI endpoint","pyamf/remoting/gateway/wsgi.py:WSGIGateway.__call__"),("Django endpoint","pyamf/remoting/gateway/django.py:DjangoGateway.__call__")],(),["WSGIGateway.__call__","DjangoGateway.__call__"])

p("C18","The remoting client matches every response to its own request",
"Every request queued on a client gets an identifier not used before on that client, and executing a batch gives each pending request the response carrying its identifier, whatever the order of responses; executed requests leave the pending queue and can no longer be executed, and a removed request is not sent. A fault is raised as the error registered for its code, a transport failure or a content type other than AMF is an error, and headers the server asks to append or replace take effect on later calls.",
["inputs","histories"],"all sequences of queueing, removing and executing; all response orders and contents",
"Tests queue one or two requests and return canned responses in order.",
["pyamf/remoting/client/__init__.py","pyamf/remoting/__init__.py"],[("queue","pyamf/remoting/client/__init__.py:RemotingService.addRequest/removeRequest/execute/execute_single"),("response","pyamf/remoting/client/__init__.py:RemotingService._getResponse, RequestWrapper.setResponse"),("faults","pyamf/remoting/__init__.py:ErrorFault.raiseException")],
[("pending list and counter","requests not yet executed; last identifier","pyamf/remoting/client/__init__.py:RemotingService.requests/request_number")],["pyamf.remoting.client.RemotingService"])

p("C19","Local Shared Object files survive encoding and decoding",
"Encoding any shared object (unicode name, either AMF version, any string-keyed encodable values) and decoding it gives the same name and the same keys and values, and saving then loading a file does too. Data with a wrong magic number, signature, header padding or length, or cut off at any point, raises an error and never returns values (a decoding error, once the two leading fields are there); the header's length field is exact.",
["inputs","crash_points"],"all names, encodings and value maps; every truncation point and header corruption",
"Tests use two fixed files and a few broken headers.",
["pyamf/sol.py"],[("codec","pyamf/sol.py:encode/decode"),("files","pyamf/sol.py:load/save, SOL")],(),["pyamf.sol.encode","pyamf.sol.decode"])

p("C20","Dates and timestamps convert both ways without drift",
"Converting any date-time to a UTC timestamp and back gives the same instant to the microsecond where a double can hold it (to the millisecond everywhere), before and after 1970, and a plain date is midnight UTC of that day. A timezone offset (a time difference) given to an encoder is subtracted from every encoded date and one given to a decoder is added to every decoded date, exactly once, in AMF0, AMF3 and AMF3 embedded in AMF0; time-of-day values are refused.",
["inputs","configurations"],"all date-times from year 1 to 9999 with microseconds, all offsets",
"Tests use a few dates, none before 1970 with a fraction.",
["pyamf/util/__init__.py","pyamf/amf0.py","pyamf/amf3.py"],[("conversion","pyamf/util/__init__.py:get_timestamp/get_datetime"),("codec","pyamf/amf0.py, pyamf/amf3.py: writeDate/readDate")],(),["pyamf.util.get_timestamp","pyamf.encode/decode"])

p("C21","XML in incoming messages cannot smuggle DTDs or entities",
"Unless the caller explicitly allows it, decoding a message containing XML with a document type declaration or an entity declaration fails with an error, in AMF0, AMF3, AMF3 embedded in AMF0 and remoting messages alike; each permission is honoured separately and only where it was given. Well-formed XML without either decodes to an equal tree, and any tree of elements encodes to text that decodes to an equal tree (line-break and attribute whitespace normalisation aside).",
["inputs","configurations"],"all XML documents, all four permission combinations, all entry points",
"Tests try two hostile documents on the direct entry points.",
["pyamf/xml.py","pyamf/codec.py","pyamf/amf0.py","pyamf/amf3.py","pyamf/remoting/__init__.py"],[("flag defaults and propagation","pyamf/__init__.py:decode, pyamf/codec.py:_Codec/Context, pyamf/amf0.py:Context.getAMF3Decoder"),("parsing","pyamf/xml.py:fromstring")],
[("permissions","forbid_dtd, forbid_entities","pyamf/codec.py:Context")],["pyamf.decode","pyamf.remoting.decode"])

p("C22","Flex messages keep all their fields through the compact external format",
"Every Flex message (async, command, acknowledge) written in its compact external form and read back has the same body, headers, destination, identifiers, correlation identifier, operation, timestamp and time-to-live, whatever subset of fields is set (no headers are read back as empty headers, and times given in milliseconds as the date they name). Reading consumes exactly what was written, also when flag bits announce fields this version does not know, whose values are skipped; more flag bytes than the message kind has are refused.",
["inputs"],"all subsets of set fields, all field values, all flag bytes",
"Tests read one or two captured messages.",
["pyamf/flex/messaging.py"],[("compact form","pyamf/flex/messaging.py:AbstractMessage/AsyncMessage/AcknowledgeMessage/CommandMessage __writeamf__/__readamf__"),("flags","pyamf/flex/messaging.py:SmallMessageMixIn.encodeSmallAttributes/decodeSmallAttributes, AbstractMessage._readamf")],(),["pyamf.encode/pyamf.decode of small messages"])

p("C23","Flex collections behave like the list or object they wrap",
"An array collection's length, items and order after any sequence of add, insert, set, remove and clear operations are those of a plain list given the same operations; looking up a missing item or a wrong index raises the documented error and changes nothing. Wrapping and unwrapping a list or dictionary for Flex, and encoding then decoding a collection or object proxy, gives back an equal value (with automatic proxies on both sides, for any value without cycles).",
["inputs","histories"],"all operation sequences on all contents; all wrapped values",
"Tests run one short sequence per operation.",
["pyamf/flex/__init__.py"],[("collection","pyamf/flex/__init__.py:ArrayCollection"),("proxies","pyamf/flex/__init__.py:ObjectProxy/proxy_object/unproxy_object")],
[("items","the wrapped list","pyamf/flex/__init__.py:ArrayCollection")],["pyamf.flex.ArrayCollection"])

p("C24","Decoding is restartable on partial data and post-processing runs once per value",
"If the data ends inside a value, decoding reports missing data, restores the position to the start of that value and never delivers a value or a clean end; at a clean end iteration stops. Scalar values can then be decoded again once the rest has been appended. Registered post-decode processors are applied to each top-level value exactly once, in registration order, each on the previous one's result, and never to nested values.",
["inputs","crash_points","histories"],"all encoded messages cut at every byte, all processor lists, all nestings",
"Tests cut one or two short messages; nested truncation is not covered.",
["pyamf/codec.py"],[("element reader","pyamf/codec.py:Decoder._readElement/readElement/next/finalise"),("processors","pyamf/__init__.py:add_post_decode_processor")],
[("nesting depth","finalise only at depth zero","pyamf/codec.py:Decoder")],["pyamf.get_decoder","pyamf.decode"])

p("C25","Every typed field written through the externalizable interface reads back",
"For every operation pair of the externalizable data interface (boolean, byte, unsigned byte, short, unsigned short, int, unsigned int, float, double, UTF string, UTF bytes, multi-byte text, object), a sequence of writes followed by the same sequence of reads returns the same values and consumes exactly what was written. A byte array encodes to exactly its content (compressed if so marked) and decodes to a byte array with equal content, whatever the content (content that itself is a complete zlib stream counts as compressed).",
["inputs","histories"],"all values and all sequences of operations; all byte-array contents, compressed or not",
"Tests check single operations against fixed bytes.",
["pyamf/amf3.py"],[("interface","pyamf/amf3.py:DataOutput/DataInput/ByteArray"),("byte arrays","pyamf/amf3.py:Encoder.writeByteArray/Decoder.readByteArray")],(),["pyamf.amf3.DataOutput","pyamf.amf3.DataInput","pyamf.amf3.ByteArray"])

p("C26","Import hooks fire exactly once for each module, whenever it is imported",
"A function registered to run when a module is imported runs exactly once with that module: at once if the module is already loaded, otherwise on its first successful import and after the module finished loading. Hooks of one module run in registration order, never fire for another module, and a hook or import that fails propagates its error without affecting the pending hooks of other modules, and a failed import leaves those of its own module for the next one.",
["histories"],"all interleavings of registrations and imports, of packages and submodules",
"Tests register one hook for one module.",
["pyamf/util/imports.py","pyamf/adapters/__init__.py"],[("finder","pyamf/util/imports.py:ModuleFinder, when_imported")],
[("pending hooks","module name -> hooks not yet run","pyamf/util/imports.py:ModuleFinder.post_load_hooks")],["pyamf.util.imports.when_imported"])

p("C27","Values are dispatched to the encoder for their type, custom types included",
"Encoding picks, for every value, the writer of its own type: subclasses of strings and lists and booleans versus integers are told apart, and functions, classes and modules raise an encoding error with nothing written. A type with a registered custom converter is encoded as the converter's result (the library's own adapters included: deques, arrays, decimals, counters, sets of the sets module, ordered, default and weak dictionaries, weak references), and an unknown type marker on decoding raises a decoding error.",
["inputs","configurations","histories"],"all Python values, all registered converters, all previously encoded types, all 256 markers",
"Tests try one value per type on a fresh encoder; the choice is memoised per type.",
["pyamf/codec.py","pyamf/amf0.py","pyamf/amf3.py","pyamf/adapters"],[("dispatch","pyamf/codec.py:Encoder.getTypeFunc/writeElement"),("decoder dispatch","pyamf/amf0.py, pyamf/amf3.py: Decoder.getTypeFunc"),("converters","pyamf/__init__.py:add_type, pyamf/adapters/*.py")],
[("per-encoder memo","type -> writer","pyamf/codec.py:_Codec._func_cache")],["pyamf.encode","pyamf.decode"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    if n>5: print(x['id'],n)
