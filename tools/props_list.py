NOTE = "Explores generated inputs with a fixed number of cases per tier; a pass covers those cases only."
prop("P01", "An MVR scene written through the interface reads back as it was built",
     "Whatever scene an application builds through the interface (layers, groups, every kind of object with its matrix, classes, positions, symbol definitions, geometries, addresses, network, protocols, alignments, overwrites, custom commands, connections, mappings, sources, provider data), every getter gives what was set, and writing the scene and reading the file gives, object by object in the same order, the same values and the documented defaults for what was not set.",
     ["inputs", "histories"], "every scene that can be built with the interface: any nesting, any number of objects of each kind, any valid value and any subset of attributes, any order of setting them",
     "The unit tests write one scene per feature with one value per attribute; dropped, swapped, truncated or defaulted values on other objects, in other combinations or other positions are not seen.",
     [SX, "src/Implementation/CSceneObjImpl.cpp", "src/Implementation/CMediaRessourceVectorImpl.cpp", "src/XmlFileHelper.cpp"],
     [("OnPrintToFile / OnReadFromNode of each kind of object", SX), ("setters and getters of scene objects", "src/Implementation/CSceneObjImpl.cpp"), ("value to text conversions", "src/XmlFileHelper.cpp")],
     observe=["every getter of IMediaRessourceVectorInterface, ISceneObj and the objects they hand out"],
     technique="differential round-trip monitor (independent model of the format) over generated scenes, under ASan and UBSan", note=NOTE)
prop("P02", "MVR documents of any author are read by the format, written ones conform to it",
     "A valid scene description from any author (attributes and elements in any order the format allows, optional ones left out, UUIDs and numbers in any valid spelling, entities, comments, whitespace) is read so that every getter gives the value in the document or the default of the format. A document the library writes has the right elements in the right places with exactly the values of the scene and nothing else.",
     ["inputs"], "every valid MVR 1.6 document; every scene built through the interface",
     "The unit tests read what the library itself wrote, so an error made the same way in writing and reading cancels out, and documents of other authors are hardly looked at.",
     [SX, "src/XmlFileHelper.cpp", "src/rapidxmlsupport", "src/UUID.cpp"],
     [("names of elements and attributes", "src/Prefix/CommonPrefix.h"), ("reading with defaults", SX + " OnReadFromNode"), ("UUIDs and matrices as text", "src/XmlFileHelper.cpp")],
     observe=["every getter of the MVR interfaces", "GeneralSceneDescription.xml in the archive"],
     technique="reference-model comparison over generated documents (independent writer and strict reader), under ASan and UBSan", note=NOTE)
prop("P03", "Files attached to an MVR scene are archived once and come back byte for byte",
     "Every file added to a scene from disk or memory, and the GDTF file of every fixture type used that one of the given folders has (the first folder that has it wins), is in the archive exactly once under its name with exactly its bytes, next to the scene description and nothing else. After reading, each is listed once and handed out with the same bytes.",
     ["inputs", "histories"], "every set of attached files of any name, size and content, added before or after the objects, any number of folders of GDTF files in any order, any use of the fixture types",
     "The unit tests attach one or two small files and check that reading succeeds; other contents and sizes, several folders, unused or shared fixture types are not looked at.",
     [SX, "src/Wrapper/ZIPFileImpl.cpp", "src/Implementation/CMediaRessourceVectorImpl.cpp"],
     [("AddFileToMvrFile / AddBufferToMvrFile / AddGdtfFolderLocation", "src/Implementation/CMediaRessourceVectorImpl.cpp"), ("WriteToFile collects the files", SX), ("ReadFromFile extracts the entries", SX)],
     observe=["entries of the archive", "GetAttachedFileCount / GetAttachedFileCountAt / getBufferToAttachedFileCountAt"],
     technique="byte-level conservation monitor over generated scenes and files, independent zip reader, under ASan and UBSan", note=NOTE)
prop("P04", "Walking an MVR scene visits each object once and links lead to the right object",
     "Walking from layer to layer, into children and from object to next object visits every object of the document once, in document order, under its own parent; the object count, type, identity and duplicate detection agree with the document. Links between objects (multipatch parent, focus, class, position, symbol, connection target) lead to the object with that UUID wherever in the document it is, and to nothing when there is none.",
     ["inputs", "histories"], "every tree of layers, groups and objects of any depth and width including empty ones, links forwards, backwards and across layers, unresolvable links, UUIDs used twice",
     "The unit tests walk a scene of a few objects in the order they were added; deep, wide or empty nests, links to later objects, links to nothing and shared UUIDs are not varied.",
     [SX, "src/Implementation/CMediaRessourceVectorImpl.cpp", "src/Implementation/CSceneObjImpl.cpp"],
     [("GetFirstChild / GetNextObject", "src/Implementation/CMediaRessourceVectorImpl.cpp"), ("links resolved after reading", SX + " ReadFromGeneralSceneDescription"), ("HasDuplicatedUuids", SX)],
     observe=["GetFirstLayer / GetNextObject / GetFirstChild", "GetMultipatchParentUUID, GetFocus, GetClass, GetPosition, GetSymDef", "GetSceneObjectCount, GetDuplicatedUuids"],
     technique="trace monitor of the walk against the tree in the document, over generated scenes, under ASan and UBSan", note=NOTE)
prop("P05", "A GDTF fixture written through the interface reads back as it was built",
     "Whatever fixture type an application builds through the interface (attributes, wheels, physical data, models, geometries of every kind, modes with channels, functions, sets, relations and macros, revisions, protocols), writing it to a file or buffer and reading that gives, getter by getter and child by child in the same order, the values that were set and the documented defaults for those that were not. "
     "Before writing, every getter already gives what was set, and a value that is changed later (after a first writing, or in a fixture that was read) replaces the one before. The written document holds exactly these values, and reading it reports no error.",
     ["inputs", "histories"], "every fixture type that can be built with the interface: any number of children of each kind, any valid value of every attribute, any subset of attributes left at its default, file and buffer, values and references changed after writing or reading",
     "The unit tests write one fixture with one value per attribute and look at most getters once; dropped, swapped, truncated or defaulted values in other combinations, at other positions or for other enumeration values are not seen.",
     [GM, "src/GDTFManager.h", "src/XmlFileHelper.cpp", "src/Implementation/CGdtfFixture.cpp"],
     [("one OnPrintToFile / OnReadFromNode pair per kind of object", GM), ("value to text conversions", "src/XmlFileHelper.cpp GdtfConverter"), ("defaults set by constructors", GM)],
     observe=["every getter of the IGdtf* interfaces", "description.xml in the archive"],
     technique="differential round-trip monitor (independent model of the format) over generated fixtures, under ASan and UBSan", note=NOTE)
prop("P06", "GDTF documents authored elsewhere are read as the format says",
     "A valid description.xml from any author (attributes in any order, optional ones left out, any number form, entities, comments, whitespace, unknown order of sections) is read so that every getter gives the value in the document or the default of the format when it is absent. Documents the library writes conform to the format: right elements in right places, only known attributes, every mandatory attribute, well-formed values.",
     ["inputs"], "every valid GDTF 1.2 document",
     "The unit tests read a few documents, most of them written by the library itself, so an error made the same way when writing and reading cancels out and defaults of absent attributes are hardly looked at.",
     [GM, "src/XmlFileHelper.cpp", "src/rapidxmlsupport.cpp"],
     [("reading of attributes with defaults", GM + " OnReadFromNode"), ("text to value conversions", "src/XmlFileHelper.cpp"), ("names of elements and attributes", "src/Prefix/CommonPrefix.h XML_GDTF_*")],
     observe=["every getter of the IGdtf* interfaces", "description.xml"],
     technique="reference-model comparison over generated documents (independent writer and strict reader), under ASan and UBSan", note=NOTE)
prop("P07", "GDTF resources survive writing, reading and rewriting byte for byte",
     "Every file or buffer added to a fixture archive (thumbnails, models of each resolution, gobo images, other files) is stored once under the folder of its kind and is handed out byte-identical after reading, by the file and buffer getters of exactly the object that names it, whether the archive is read from a file or from memory. "
     "Refreshing the buffer of a fixture that was built or read keeps every entry and value, and doing so again changes nothing.",
     ["inputs", "histories"], "every set of resources of any kind, size and content, added from file or buffer, in either way of writing; every sequence of write, read, refresh, read, refresh",
     "The unit tests add one or two resources and check that reading works; content, other kinds of resource, name clashes between folders and rewriting an archive that was read are not looked at.",
     [GM, "src/Implementation/CGdtfFixture.cpp", "src/Wrapper/ZIPFileImpl.cpp", "src/SceneDataExchange.cpp"],
     [("archive folders of resource kinds", "src/SceneDataExchange.cpp GetResourceSubFolder"), ("import keeps all entries of the archive", GM + " ImportFromZip"), ("export writes them again", GM + " ExportToFile"), ("buffers added are remembered", "src/Implementation/CGdtfFixture.cpp RefreshBuffer")],
     observe=["IGdtfFixture::ToBuffer", "IGdtfModel file and buffer getters", "IGdtfWheelSlot::GetGoboFileFullPath", "thumbnail getters"],
     technique="byte-level conservation monitor over generated archives and rewrite histories, independent zip reader, under ASan and UBSan", note=NOTE)
prop("P08", "References in a GDTF document lead to the object they name or are reported",
     "Each reference (attribute, feature, activation group, wheel, filter, emitter, colour space, gamut, DMX profile, model, geometry, channel, function, mode master, sub unit, mode) read from a document gives the very object of that name in the scope the format defines, with parents and back lists in agreement, no matter how many objects there are or in which order they are declared. A reference that names nothing gives no object and is reported as an error of its kind.",
     ["inputs"], "every document with references of every kind, up to hundreds of objects per kind, names that nearly clash or repeat in other scopes, targets declared before or after, and unresolvable names",
     "The unit tests resolve a few references in small documents; large documents take another lookup path, and scopes, near-miss names and unresolved names are not varied.",
     [GM],
     [("ResolveAll* passes after reading", GM), ("indexed lookup for large documents", GM + " fAttributeIndex"), ("errors for unresolved names", GM + " GdtfParsingError")],
     observe=["reference getters of the IGdtf* interfaces", "GetParsingErrorAt"],
     technique="object-identity monitor against an independent resolver over generated documents, under ASan and UBSan", note=NOTE)
prop("P09", "DMX ranges of functions and sets tile their channel without gaps or overlap",
     "In every mode read or written, the functions of each logical channel start at 0, follow one another by their start values and end one below the next start or at the maximum of the channel's resolution; the channel sets of each function do the same within their function, gaps being filled by unnamed sets when written. DMX values are converted between resolutions as the format defines, with byte mirroring or byte shifting.",
     ["inputs"], "every mode with any number of functions and sets per channel, resolutions of 1 to 4 bytes and virtual channels, start values at and next to every bound, values given in any resolution with either conversion",
     "The unit tests look at a handful of functions on fixed values, mostly in one resolution.",
     [GM, "src/XmlFileHelper.cpp"],
     [("ends computed from the next start", GM + " GetDMXEnd"), ("gap sets inserted", GM + " OnPrintToFile of the channel function"), ("resolution conversion", "src/XmlFileHelper.cpp ConvertDMXValue")],
     observe=["IGdtfDmxChannelFunction::GetEndAddress", "IGdtfDmxChannelSet getters", "description.xml"],
     technique="interval-tiling monitor against an independent model over generated modes, under ASan and UBSan", note=NOTE)
prop("P10", "The footprint and DMX breaks of a mode follow from its channels and geometry",
     "For every mode the total footprint, the list of breaks, and the footprint of each break equal what the channels, their offsets, their resolution and the geometry references with their break offsets give; channels under a geometry reference occupy the address of the reference's break and virtual channels occupy none.",
     ["inputs"], "every mode with channels in any breaks at any offsets, nested geometry trees, references to shared trees with any break offsets, overwrite channels",
     "The unit tests compare two documents' footprints; nested references, several breaks and overwrite breaks are hardly combined.",
     [GM],
     [("GetChannelFootprint / break calculation", GM + " GdtfDmxMode"), ("geometry reference breaks", GM + " GdtfGeometryReference")],
     observe=["IGdtfDmxMode::GetFootprintForBreak", "GetBreakCount", "GetBreakAt", "GetFootPrint"],
     technique="reference-model comparison of addresses over generated modes, under ASan and UBSan", note=NOTE)
prop("P11", "Reading a GDTF document reports exactly the errors it has",
     "Reading a valid document reports no error. A document with a fault (a mandatory attribute missing, an unknown attribute or element, a malformed or out-of-range value, an unresolved or illegal reference, a duplicate) is still read and reports an error of the right kind at the element and line of the fault, naming the attribute where it is one, and nothing unrelated.",
     ["inputs", "fault_sequences"], "every valid document, and every single fault of the kinds the format defines, at any element of any document",
     "The unit tests check error reporting with a few broken documents; each kind of fault exists at hundreds of places in the format.",
     [GM, "src/XmlFileHelper.cpp", "src/rapidxmlsupport.cpp"],
     [("CheckNodeAttributes with mandatory and optional lists", GM + " OnErrorCheck"), ("conversion errors", "src/XmlFileHelper.cpp"), ("line numbers", "src/rapidxmlsupport.cpp GetLineNumber")],
     observe=["IGdtfFixture::GetParsingErrorCount / GetParsingErrorAt"],
     technique="fault injection into generated documents with an oracle for the reported errors, under ASan and UBSan", note=NOTE)
prop("P13", "An archive gives back exactly what was stored, and other zip tools agree",
     "Storing, overwriting, removing, listing and reading entries of a ZIP archive, in a file or in memory, behaves like a map from names to bytes whatever the content, size, name, number and order of operations, and a standard zip reader finds the same entries. Archives written by other tools, deflated or stored, with extra fields, comments or data descriptors, are read with the same content.",
     ["histories", "inputs"], "every sequence of archive operations and every archive that a zip writer of the common kinds produces, entries of any size and content",
     "The unit tests write one or two entries and read them back; sizes around the block sizes, removals, overwriting, duplicates and foreign archives are not covered.",
     ["src/Wrapper/ZIPFileImpl.cpp", "src/UnzipFileImpl.cpp"],
     [("CreateNewFile / RemoveFile / GetNextFile", "src/Wrapper/ZIPFileImpl.cpp"), ("inflate loop and local header reading", "src/Wrapper/ZIPFileImpl.cpp")],
     observe=["IZIPFile", "IZIPBuffer", "archive bytes on disk"],
     technique="model-based history monitor of the archive interface plus an independent zip reader and writer, under ASan and UBSan", note=NOTE)
prop("P15", "No GDTF input corrupts memory, hits undefined behaviour or ends the process",
     "Reading any bytes as a GDTF, from a file or from memory, then asking every getter and writing the result again, ends in bounded time with an answer or an error. No access outside an object, no undefined behaviour, no escaping exception, whatever is damaged in archive, XML or values.",
     ["inputs", "fault_sequences"], "every byte sequence given as GDTF; explored by damage at the level of bytes, archive records, XML text, elements, attributes and values of generated documents",
     "The unit tests read well-formed files and very few broken ones, with no instrumentation.",
     [GM, "src/XmlFileHelper.cpp", "src/Wrapper/ZIPFileImpl.cpp", "src/GSString.cpp"],
     [("value conversions", "src/XmlFileHelper.cpp"), ("reading of every element", GM + " OnReadFromNode"), ("archive records", "src/Wrapper/ZIPFileImpl.cpp")],
     observe=["process state under ASan and UBSan", "every IGdtf* getter"],
     technique="structure-aware hostile workload under AddressSanitizer and UndefinedBehaviorSanitizer with a time-out", note=NOTE)
prop("P16", "No MVR input corrupts memory, hits undefined behaviour or ends the process",
     "Opening any bytes as an MVR, walking every layer, object, class, symbol, mapping and provider, and asking every getter, including fixtures inside the archive that are damaged themselves, ends in bounded time with an answer or an error. No access outside an object, no undefined behaviour, no escaping exception.",
     ["inputs", "fault_sequences"], "every byte sequence given as MVR; explored by damage at the level of bytes, archive records, XML text, elements, attributes and values of generated scenes, with embedded fixtures",
     "The unit tests read well-formed scenes only, with no instrumentation.",
     [SX, "src/XmlFileHelper.cpp", "src/Wrapper/ZIPFileImpl.cpp"],
     [("reading of objects", SX + " OnReadFromNode"), ("archive extraction", SX + " ReadFromFile")],
     observe=["process state under ASan and UBSan", "every ISceneObj, IMediaRessourceVectorInterface getter"],
     technique="structure-aware hostile workload under AddressSanitizer and UndefinedBehaviorSanitizer with a time-out", note=NOTE)
prop("P14", "Checksums are SHA-256 and a changed file fails its check",
     "The hash of any data, added in any pieces at any alignment, asked for at any time and again after more data, is its SHA-256 in lower-case hex. A hash file created for a file or buffer passes the check for exactly the same bytes and fails it for any other data or hash.",
     ["inputs", "histories"], "every byte sequence, every way to cut it into pieces, every history of adding, asking and starting over",
     "No unit test computes a hash.",
     ["src/sha256/sha256.cpp", "src/HashManager.cpp"],
     [("padding over the block boundary", "src/sha256/sha256.cpp processBuffer"), ("partly filled buffer", "src/sha256/sha256.cpp add"), ("comparison with the stored hash", "src/HashManager.cpp")],
     observe=["SHA256::getHash", "HashManager::CreateHashFor*", "HashManager::CheckHashFor*"],
     technique="differential monitor against another implementation over generated histories, under ASan and UBSan", note=NOTE)
prop("P24", "Strings behave as sequences of UTF-16 units and convert without loss",
     "Every operation on the library's string class gives the result and leaves the content that a sequence of UTF-16 units gives, for any content, position and length, including ones beyond the end. Well-formed UTF-8, UTF-16 and wide text converts without loss, malformed text becomes '?' without failing, and copying into a buffer never exceeds it.",
     ["histories", "inputs"], "every history of operations on strings of any content (empty, ASCII, other planes, lone surrogates, malformed UTF-8), any position, length and buffer size",
     "No unit test is about the string class; every value the library reads or writes passes through it.",
     ["src/GSString.cpp", "src/GSString.h"],
     [("conversion from and to UTF-8", "src/GSString.cpp SetStdUStrFromCharBuffer, PrepareCharBuffer"), ("cutting between surrogates", "src/GSString.cpp TrimInvalidCharacters"), ("bounds of every position", "src/GSString.cpp GetAt, Insert, Delete, Mid")],
     observe=["TXString methods and content"],
     technique="model-based history monitor of the string class under ASan and UBSan", note=NOTE)

prop("P26", "RGB and CIE colours convert into each other without loss",
     "Every 8-bit RGB colour converted to CIE xyY and back is the same colour, and both directions agree with the sRGB (D65) definition within the precision of its published matrices. A CIE colour outside of the gamut, or not a number at all, gives a colour within the range of RGB and never undefined behaviour.",
     ["inputs"], "every one of the 2^24 RGB colours and every CIE colour, finite or not, inside and outside of the gamut",
     "No unit test is about the conversion; the quick run samples lines of the RGB cube and the thorough run walks all of it.",
     ["src/CieColor.cpp"],
     [("both conversions", "src/CieColor.cpp")],
     observe=["CieColor conversions"],
     technique="round-trip monitor and comparison with the sRGB formulas, under ASan and UBSan", note=NOTE)
XC = "src/mvrxchange/"
prop("P17", "No MVR-xchange traffic corrupts memory or stops the service",
     "Whatever bytes peers send to the server or answer to its messages, in any pieces, ended in any way, there is no access outside an object, no undefined behaviour, no escaping exception and no endless work, and the service answers the next sound message.",
     ["inputs", "schedules", "fault_sequences"], "every sequence of connections with any bytes in any pieces, closed or reset at any point; explored by damage of headers, JSON structure, values and text",
     "The unit tests exchange a few well-formed messages between two instances of the library, with no instrumentation.",
     [XC + "mvrxchange_message.cpp", XC + "mvrxchange_session.cpp", XC + "mvrxchange_client.cpp", XC + "mvrxchange_dynamic_buffer.cpp"],
     [("length of a packet", XC + "mvrxchange_message.cpp DecodeHeader"), ("reading of every member", XC + "mvrxchange_message.cpp ToExternalMessage"), ("size of texts", XC + "mvrxchange_message.cpp, src/Include MVRxchangeString")],
     observe=["process state under ASan and UBSan", "answer to a sound message after hostile ones"],
     technique="hostile packets and hostile TCP peers under AddressSanitizer and UndefinedBehaviorSanitizer with a time-out", note=NOTE)
prop("P18", "MVR-xchange messages keep every field between stations",
     "A message encoded by the service is a packet with the header of the protocol and the JSON (or the file) that the protocol defines, and decoding it gives the same message. A message of another implementation, in any order and spelling that JSON allows, is read with the same fields, and one that lacks a member or has a wrong one is refused as a whole.",
     ["inputs"], "every message of every type with any text, UUIDs, numbers, lists and files, and every JSON text of it",
     "The unit tests encode one message of each type and read it with the same code.",
     [XC + "mvrxchange_message.cpp", XC + "mvrxchange_dynamic_buffer.cpp"],
     [("FromExternalMessage / ToExternalMessage", XC + "mvrxchange_message.cpp"), ("EncodeHeader / DecodeHeader", XC + "mvrxchange_message.cpp")],
     observe=["packets on the wire", "IMVRxchangeMessage"],
     technique="independent encoder and decoder of the protocol as the oracle over generated messages, under ASan and UBSan", note=NOTE)
prop("P19", "Every MVR-xchange message is delivered and answered exactly once",
     "Each complete message of a peer calls the incoming callback exactly once with its content, and the peer gets exactly the answer of the callback before the connection closes; cut or foreign packets call nothing. A message of the service reaches each address of every current station it is meant for once, each valid answer calls the returning callback once, and stations that join or leave do so for the next message.",
     ["histories", "schedules", "fault_sequences"], "every history of concurrent peers, pieces, delays, resets, stations that join and leave, and messages sent to stations of any behaviour",
     "The unit tests send one message after another; concurrent, slow, cut or failing peers do not occur in them.",
     [XC + "CMVRxchangeService.cpp", XC + "mvrxchange_session.cpp", XC + "mvrxchange_server.cpp", XC + "mvrxchange_client.cpp"],
     [("session life cycle", XC + "mvrxchange_session.cpp DoRead, Deliver"), ("recipient filter and answers", XC + "CMVRxchangeService.cpp Send_message"), ("members", XC + "CMVRxchangeService.cpp TCP_OnIncommingMessage")],
     observe=["incoming and returning callbacks", "bytes at every peer and listener", "sessions left"],
     technique="online recording of callbacks and wire traffic, checked against a model of the protocol (exactly-once, membership), under ASan and UBSan", note=NOTE)
prop("P27", "Announced and found services keep every record of DNS-SD and mDNS",
     "Looking for a service finds each announced instance with the host, port, TXT text and addresses its records give, whatever their order, spread over packets or neighbours, and nothing else; the announcer answers each question about its service, and only these, with the records of RFC 6763 on the right path. Damaged datagrams and failing sockets neither corrupt memory nor leave a socket open.",
     ["inputs", "fault_sequences"], "every set of hosts, instances, records, interfaces and packets, every question, every damage to a datagram and every failing socket call",
     "The unit tests find one instance announced by the same library on the loopback interface.",
     ["mdns_cpp/src/mdns.cpp", "mdns_cpp/src/mdns.h", XC + "CMVRxchangeService.cpp"],
     [("collection of records", "mdns_cpp/src/mdns.cpp executeQuery2"), ("answers", "mdns_cpp/src/mdns.cpp service_callback"), ("encoding and decoding", "mdns_cpp/src/mdns.h")],
     observe=["datagrams sent", "services returned by executeQuery2", "open sockets"],
     technique="in-memory network with an independent DNS encoder and decoder as the oracle, hostile datagrams and failing calls, under ASan and UBSan", note=NOTE)
prop("P20", "The MVR-xchange service has no data race between its threads",
     "While peers connect, stations join and leave, messages are sent and services are looked for, all at once and from several threads, no two threads of the service access the same memory without order when one of them writes.",
     ["schedules", "histories"], "every interleaving of the server, discovery, announcer, sender and calling threads; explored by histories of many concurrent peers and several services in one process",
     "A race shows in a test only when the bad interleaving happens and changes an asserted value; the unit tests run without a race detector.",
     [XC + "CMVRxchangeService.cpp", XC + "mvrxchange_server.cpp", XC + "mvrxchange_session.cpp", XC + "mvrxchange_client.cpp", "mdns_cpp/src/mdns.cpp"],
     [("members of the group", XC + "CMVRxchangeService.cpp fMVRGroup"), ("services found", XC + "CMVRxchangeService.cpp fQueryLocalServicesResult"), ("stop and running flags", XC + "CMVRxchangeService.h, mdns_cpp/src/mdns.h")],
     observe=["memory accesses of every thread", "synchronisation"],
     technique="ThreadSanitizer over concurrent histories of whole services", note=NOTE)
prop("P32", "Stations of a group know each other, and who is there",
     "After stations connect, leave, fail, come back, change group or do so at once, each connected station's group holds exactly the other stations of its service name with their present port and addresses; joins, leaves and commits reach them and nobody else, and the list of services names exactly the others that are announced.",
     ["histories", "schedules"], "every history of connecting, leaving, failing and sending by several stations in several groups, one after another or at once, among hosts of other makers",
     "The unit tests connect two stations once.",
     [XC + "CMVRxchangeService.cpp", "mdns_cpp/src/mdns.cpp"],
     [("connecting", XC + "CMVRxchangeService.cpp ConnectToLocalService"), ("leaving", XC + "CMVRxchangeService.cpp LeaveLocalService"), ("joined stations", XC + "CMVRxchangeService.cpp TCP_OnIncommingMessage"), ("list of services", XC + "CMVRxchangeService.cpp mDNS_Client_Task")],
     observe=["groups", "services listed", "incoming and returning callbacks"],
     technique="whole services on an in-memory datagram network and real loopback connections, compared step by step with a model of membership, under ASan and UBSan", note=NOTE)
prop("P33", "Documents used in different threads do not disturb each other",
     "Building, writing and reading GDTF and MVR documents in one thread gives the same results whatever other threads do with documents of their own, without data races.",
     ["schedules", "inputs"], "every interleaving of threads that each work with their own documents; explored with four threads over generated documents",
     "The unit tests work in one thread.",
     ["src/GDTFManager.cpp", "src/SceneDataExchange.cpp", "src/Wrapper/ZIPFileImpl.cpp", "src/XMLLib/XMLFileImpl.cpp"],
     [("errors of the fixture being read", "src/GDTFManager.cpp GdtfFixture::AddError"), ("date of entries", "src/Wrapper/ZIPFileImpl.cpp GetDosDateAndTime")],
     observe=["memory accesses of every thread", "every value read back in every thread"],
     technique="ThreadSanitizer, and the round-trip oracles of P01, P02, P05 and P06 while other threads work", note=NOTE)
prop("P21", "A failing disk is reported and does no harm",
     "When any file system call that writing or reading a GDTF or MVR document needs fails, once or from then on, or the disk is full, a folder is missing or the file is cut, the operation either reports the failure or has had its full effect; the library does not crash, and the next write and read work.",
     ["fault_sequences", "inputs"], "every file system call made while a document is written and read, failing alone or with all that follow it, over generated documents",
     "The unit tests write to a working disk; each failing call needs a fault that only injection provides.",
     ["src/Wrapper/RawOSFileimpl.cpp", "src/Wrapper/ZIPFileBuffer.cpp", "src/Wrapper/ZIPFileImpl.cpp", "src/SceneDataExchange.cpp", "src/Implementation/CGdtfFixture.cpp", "src/Implementation/CMediaRessourceVectorImpl.cpp"],
     [("files on disk", "src/Wrapper/RawOSFileimpl.cpp"), ("archives on disk", "src/Wrapper/ZIPFileBuffer.cpp Open, Close"), ("results of writing", "src/SceneDataExchange.cpp WriteToFile, src/Implementation/CGdtfFixture.cpp Close")],
     observe=["results of the calls", "files left behind", "values read back after the fault"],
     technique="each intercepted file system call fails in turn, under ASan and UBSan, and reported success is compared with the file and the values read", note=NOTE)
prop("P22", "Reading an archive changes only the library's own folders",
     "Whatever the names in a GDTF or MVR archive are, reading it, walking it and letting it go creates, changes and deletes files only in the library's own extraction folders, and writing creates only the file that was asked for.",
     ["inputs"], "every archive, with entry names that are absolute, lead upwards, use other separators, are empty, repeated, very long or not text",
     "The unit tests read archives whose names are plain.",
     ["src/Wrapper/ZIPFileImpl.cpp", "src/Wrapper/FileIdentifier.cpp", "src/Wrapper/FolderIdentifier.cpp", "src/SceneDataExchange.cpp", "src/GDTFManager.cpp"],
     [("extraction", "src/SceneDataExchange.cpp ReadFromFile, src/GDTFManager.cpp"), ("extraction of one file", "src/Wrapper/ZIPFileImpl.cpp DecompressFile")],
     observe=["every file opened for writing, created, renamed or removed", "the whole directory tree before and after"],
     technique="a guarded directory tree with bait files, compared before and after, and a log of every intercepted file system call, under ASan and UBSan as an unprivileged user", note=NOTE)
prop("P30", "What is written and read depends on the input alone",
     "The document written, the values read and the errors reported do not depend on what memory held before, on the locale, the time zone or the clock, on the documents handled earlier or on the order in which they are handled.",
     ["inputs", "configurations", "histories"], "every document and every environment; explored with generated documents in processes that differ in memory contents, locale, clock and order",
     "The unit tests run in one environment, where uninitialised memory and the C locale hide the difference.",
     ["src/XmlFileHelper.cpp", "src/GDTFManager.cpp", "src/SceneDataExchange.cpp", "src/Wrapper/ZIPFileImpl.cpp", "src/Implementation"],
     [("numbers as text", "src/XmlFileHelper.cpp GdtfConverter"), ("initial values", "constructors in src/GDTFManager.cpp, src/SceneDataExchange.cpp")],
     observe=["digest of everything read and written", "errors reported"],
     technique="the same cases in differently initialised builds and environments, and the logs of what was observed compared", note=NOTE)
prop("P29", "Reading can be given up at any moment and progress is told truly",
     "At whatever question of the library whether to go on the application says no, reading ends without asking for much more, what was read until then is a usable part of the whole document, and the next reading of the same document is complete. The progress that is reported never decreases, never passes the total that is reported with it, and reaches the total when a whole fixture was read.",
     ["inputs", "schedules"], "every document and every moment of giving up; explored with generated documents and moments spread over each reading",
     "The unit tests give up at one fixed moment of one file, if at all; the half-read object is what breaks, and that differs per moment.",
     [GM, "src/SceneDataExchange.cpp", "src/GDTFManager.h"],
     [("giving up", GM + " CheckAbort"), ("progress", GM + " FeedbackProgress, GetFileNodesCount"), ("scenes", "src/SceneDataExchange.cpp ReadFromFile")],
     observe=["the questions asked, and the number of them after the answer", "every getter of the part that was read, compared with the whole", "every progress report"],
     technique="reading is given up at enumerated and random questions, the part walked through every getter under ASan and UBSan and compared with the whole", note=NOTE)
prop("P35", "Documents and resources are found and written under the very path given",
     "Whatever full path the application names, with spaces, dots, quotes, any script, '.' and '..' and doubled separators, and whatever its home and working folders are called, the document is written there and nowhere else, the resources named are the ones put into it under their own names, the application's own files are untouched, and what is taken out again is found at the path the library tells.",
     ["inputs", "configurations"], "every absolute path of existing folders; explored with generated trees of folders and files of every kind of name",
     "The unit tests use a handful of plain names in one folder.",
     ["src/Wrapper/FileIdentifier.cpp", "src/Wrapper/FolderIdentifier.cpp", "src/Wrapper/FilingWrapper.cpp", "src/Wrapper/ZIPFileImpl.cpp", "src/SceneDataExchange.cpp", GM],
     [("paths", "src/Wrapper/FolderIdentifier.cpp SetFullPath, GetFullPath"), ("file names", "src/Wrapper/FileIdentifier.cpp SetFileFullPath"), ("library folders", "src/SceneDataExchange.cpp AddGdtfFolderLocation")],
     observe=["the whole tree of files before and after", "the entries of the document as an independent reader sees them", "the paths the library tells and the bytes there"],
     technique="documents written and read under generated paths, the file tree compared with what was asked for, all file system calls watched, under ASan and UBSan", note=NOTE)
