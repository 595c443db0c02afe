import json
A="dash7/src/app/"; O=A+"operation/mod.rs"
ALL=["dash7/src/app","dash7/src/file","dash7/src/link","dash7/src/network","dash7/src/transport","dash7/src/session","dash7/src/physical","dash7/src/data","dash7/src/types.rs","dash7/src/utils.rs"]
def p(id,title,st,qt,why,files,mech,over=("inputs","configurations"),obs=()):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None))
P=[
p("P01","Every ALP action survives encode/decode unchanged, on the documented layout",
  "For every protocol variant and every well-formed action of every kind, encoding succeeds, produces exactly the documented byte layout (header flags, operation code, operands in order), and decoding those bytes, with anything appended, gives back the identical action and consumes exactly the bytes produced. Conversely any action obtained by decoding can be encoded and decoded again to the same action, except values carrying an unrecognised interface or file identifier.",
  "all action values of every kind with all operand values and lengths; all suffixes; the variants spec, subiot and wizzilab","the tests encode and decode one or two literal values per action kind; the value space has free bytes, lengths, nested files, queries and interface configurations",
  [A+"action.rs",O,A+"query.rs",A+"interface.rs",A+"interface_final.rs","dash7/src/file/mod.rs"],[("action dispatch on the operation code",A+"action.rs"),("operand structures with derived codecs",O)],obs=["Action::from_bytes","Action::to_bytes"]),
p("P02","A command is exactly the sequence of actions on the wire, in order",
  "Decoding a command yields the actions in wire order, each beginning where the previous one ended, stops at the end of input, at the stated length or right after an indirect forward, and fails if any action up to that point fails; the empty input is the empty command. Encoding writes the actions back to back and nothing else, so a well-formed command (an indirect forward only in last place) decodes to itself from its encoding.",
  "all byte strings, all action sequences of any length, all length limits","tests use a few literal commands with up to three actions; the loop's behaviour for any number of actions and any boundary position is not sampled",
  [A+"command.rs",A+"action.rs"],[("action loop of the command decoder",A+"command.rs"),("end-of-input detection",A+"command.rs")],over=("inputs","histories","configurations"),obs=["Command::from_bytes","Command::to_bytes"]),
p("P03","Operation codes and header flags sit at their assigned bits; unknown codes fail",
  "The first byte of every action holds its two header flags in the top two bits and its assigned operation code in the low six, for decoding and for encoding, whatever the operands. A first byte whose operation code is not assigned in the variant is refused, and no two actions share a code.",
  "all 256 first bytes with every continuation; all actions; each variant","the tests name one opcode per action with fixed flags; a swapped pair or a missing arm for untested codes or flag combinations passes",
  [A+"action.rs",O],[("operation code constants and match",A+"action.rs"),("header structures",O)],obs=["Action::from_bytes","Action::to_bytes"]),
p("P04","Decoding any bytes terminates in the assigned value or an error, never a panic",
  "For every decodable type and every input, of any length and content, decoding terminates without panicking, without arithmetic overflow and without reading past the input, and returns either an error or the one value and consumed length that the layout assigns to those bytes. Input that ends before the layout is complete is always an error.",
  "all byte strings (including truncated and hostile ones), all decodable types, all starting bit offsets the type supports","tests feed valid encodings; malformed input, extreme lengths and unsupported codes are almost untested",
  ALL,[("derived and hand-written readers","dash7/src"),("length-driven allocation and loops","dash7/src/utils.rs")],obs=["from_bytes","try_from","from_reader"]),
p("P05","Byte-level entry points report exactly what was consumed and refuse leftovers",
  "Decoding from a byte slice and a bit offset returns as remainder exactly the unread bytes with the bit offset of the first unread bit, and decoding from a reader reports the number of bits consumed; both give the same value or error as each other. Converting a whole byte slice into a value succeeds only if nothing but padding bits of the last byte would remain, and all ways of encoding a value to bytes give the same bytes, the last byte padded with zero bits.",
  "all inputs and bit offsets, all types with byte-level entry points","tests call one entry point per type with exactly fitting input, so leftovers, offsets and disagreement between entry points are not observed",
  ["dash7/src/utils.rs",A+"command.rs","dash7/src/file/mod.rs"]+ALL[:1],[("remainder computation","dash7/src/utils.rs"),("container impls",A+"command.rs")],obs=["from_bytes","from_reader","try_from","to_bytes"]),
p("P06","Length operands use the shortest of four forms and decode to what was encoded",
  "A length below 2^30 is encoded in the shortest of the 1, 2, 3 and 4 byte forms (two size bits, then 6, 14, 22 or 30 value bits, most significant first) and decodes to the same number; longer forms of small numbers still decode. A length that does not fit 30 bits is refused on encoding rather than truncated, and conversions to and from integers preserve the number (a size that does not fit 32 bits becomes a length that is refused, never a smaller one).",
  "all 2^32 lengths, all byte strings","the tests try a handful of lengths; boundary values of each form and the refusal of oversized lengths are exhaustive claims",
  [A+"operation/length.rs",A+"operation/file_offset.rs"],[("size-bit selection",A+"operation/length.rs")],over=("inputs",),obs=["Length::from_bytes","Length::to_bytes"]),
p("P07","Compressed integers: exact when representable, correctly rounded otherwise",
  "A compressed integer byte with 3-bit exponent e and 5-bit mantissa m means 4^e * m; encoding uses the smallest exponent that can hold the value and rounds down, or up when asked to, never past the next representable number. Values above 507904, and exponents or mantissas out of range, are refused, and every value obtained by decoding encodes to a byte meaning the same value.",
  "all values 0..2^32, both rounding modes, all exponent and mantissa bytes","tests check a few values per exponent; rounding at each exponent boundary for both modes is not sampled",
  ["dash7/src/types.rs"],[("compress / decompress","dash7/src/types.rs")],over=("inputs",),obs=["VarInt::compress","VarInt::decompress","VarInt::from_bytes"]),
p("P08","Queries keep their code, mask flag, parameters, value and files through the wire",
  "Every query is encoded as its 3-bit code, mask-present flag, parameters, length, then mask if flagged (a bitmap range always carries its bitmap), value if any, and file offsets, and decodes to the same query whenever its mask flag and lengths match its contents. Query codes without a meaning are refused and a query without the mask flag never consumes a mask.",
  "all query kinds, masks, values, comparison and range types and file offsets","tests use one or two literals per query kind, mostly with a mask of fixed size",
  [A+"query.rs",O],[("query dispatch and mask conditions",A+"query.rs")],obs=["Query::from_bytes","ActionQuery in Action"]),
p("P09","Interface configurations, addressees and QoS survive the wire in every form",
  "Every interface configuration (host, serial, LoRaWAN ABP and OTAA, DASH7) is encoded as its interface code followed by its fields in documented order and endianness and decodes to the same configuration; for DASH7 the QoS, timeout, addressee type, security method, access class, address and security state each sit at their documented bits. Forward and indirect forward actions carry exactly that configuration, an overload being present exactly when flagged.",
  "all configurations, address types, security methods, retry and response modes, both forwarding actions","tests cover one configuration per interface; combinations of address type and security method decide which bytes follow",
  [A+"interface.rs","dash7/src/network/addressee.rs","dash7/src/network/mod.rs","dash7/src/session/mod.rs","dash7/src/link/mod.rs",O],[("interface code dispatch",A+"interface.rs"),("addressee sub-structures selected by type","dash7/src/network/addressee.rs")],obs=["InterfaceConfiguration","Forward","IndirectForward"]),
p("P10","Status operands decode to the right status for their type, code and length",
  "A status action's type bits select between action status, interface status and, in the wizzilab variant, final and transmission status; each is laid out as documented (identifier, length, then the status fields) and round-trips for every recognised interface. A status code is an error exactly when it is 0x80 or above, interface statuses without content are accepted, and an unknown status type is refused.",
  "all status values, status types, interface identifiers and lengths; each variant","tests use one literal status each; other codes, lengths and identifiers are not sampled",
  [O,A+"interface_final.rs","dash7/src/session/mod.rs","dash7/src/session/interface_final.rs"],[("status type dispatch",O),("length-prefixed status",A+"interface_final.rs")],obs=["Status","InterfaceStatusOperation"]),
p("P11","System file contents decode by file id and round-trip field by field",
  "File content is interpreted by its file identifier: each known system file is decoded into its fields at their documented positions, widths and endianness, any other content stays the raw bytes of the stated length, and encoding gives the same bytes back. File headers and properties (permissions, conditions, sizes, storage class) keep every field.",
  "all file identifiers 0..255, all contents, all lengths","tests cover one literal per file type with mostly zero fields; field swaps or wrong endianness in untested fields pass",
  ["dash7/src/file","dash7/src/data/mod.rs","dash7/src/physical/mod.rs","dash7/src/link/mod.rs"],[("file identifier dispatch","dash7/src/file/mod.rs"),("per-file structures","dash7/src/file")],obs=["File::from_bytes","FileData"]),
p("P12","Declared lengths and presence flags always match the content that follows",
  "Whenever a length-prefixed operand is encoded, the prefix equals the number of content bytes written after it, for contents of any size up to the maximum; decoding reads as many bytes as declared for raw content. Refreshing a structure recomputes every derived length, count, flag and type field from its content and changes nothing else, or fails when the content cannot be counted in the field.",
  "all contents and lengths, all stale field values before refreshing","tests encode short literal contents whose lengths were typed in by hand, and never call the refresh",
  ["dash7/src/utils.rs",O,A+"query.rs",A+"interface_final.rs","dash7/src/file/phy_status.rs","dash7/src/network/addressee.rs"],[("length-prefixed writer","dash7/src/utils.rs"),("update attributes",A+"query.rs")],over=("inputs","histories","configurations"),obs=["to_bytes","update"]),
p("P13","Command accessors return the first matching action and nothing else",
  "Over a command with any sequence of actions, the interface status, request tag and response tag accessors return the first such action or none, the identifiers come from those tags with the request preferred over the response, and the last-response test is the end flag of the first response tag, false without one. Filtering out interface statuses keeps every other action, in order, exactly once.",
  "all action sequences of any length and order","tests use commands with at most one tag; several tags, tags after other statuses and empty commands are not sampled",
  [A+"command.rs"],[("accessor scans",A+"command.rs")],over=("inputs","histories","configurations"),obs=["Command accessors"]),
p("P14","Every enumerated code maps to its one documented meaning, both ways",
  "Each enumeration (permissions, conditions, classes, methods, modes, bands, interface and file identifiers, status and comparison types) decodes every assigned code to its documented meaning at its documented width, encodes that meaning to the same code, and reports the same code as its identifier. Codes without a meaning are refused, or kept as the explicit catch-all where the enumeration has one.",
  "every enumeration, every code of its width","tests name few of the codes; exchanging two untested codes in both directions is invisible to a round-trip test",
  ["dash7/src/physical/mod.rs","dash7/src/network/mod.rs","dash7/src/session/mod.rs","dash7/src/data/mod.rs","dash7/src/file/mod.rs",O,A+"query.rs"],[("id attributes on enumerations","dash7/src")],obs=["from_bytes","to_bytes","deku_id"]),
p("P15","Link, network and transport frames are laid out and parsed as documented",
  "Background and foreground link frames, network frames and transport frames, with their control fields, hopping, access class, origin address, acknowledgement template and checksums, decode every field from its documented position and encode it there, optional parts being present exactly when their control bit says so. A frame with optional parts and contents matching its control bits decodes to itself from its encoding; access profiles keep all sub-profiles and sub-bands in order.",
  "all frames, control bits, addresses and payload commands; for wizzilab network frames only at the bit offset at which they are defined","tests decode one or two literal frames",
  ["dash7/src/link/frame.rs","dash7/src/link/mod.rs","dash7/src/network/network.rs","dash7/src/transport/mod.rs","dash7/src/physical/mod.rs"],[("frame structures with conditional fields","dash7/src/network/network.rs"),("transport control and templates","dash7/src/transport/mod.rs")],obs=["Frame::from_bytes","Frame::to_bytes"]),
p("P16","Fixed-size strings, keys and arrays occupy exactly their size, in order",
  "Fixed-size texts are written as their bytes cut or zero-padded to the declared size and read back from exactly that many bytes, rejecting bytes that are not text; keys and fixed arrays keep every element in order. Structures made of them decode to themselves when their texts have the declared size.",
  "all strings (shorter, equal, longer, non-ASCII), all byte arrays and element values","tests use one literal per structure",
  ["dash7/src/utils.rs","dash7/src/file/factory_settings.rs","dash7/src/file/firmware_version.rs","dash7/src/file/security_key.rs","dash7/src/file/access_profile.rs","dash7/src/link/mod.rs",A+"interface.rs"],[("string and array helpers","dash7/src/utils.rs")],obs=["FactorySettings","FirmwareVersion","AccessProfile"]),
p("P17","Constructors and conversions build the value they promise",
  "Every constructor returns a value whose derived fields (mask flag, lengths, overload flag, type codes, operation code) agree with its arguments and whose other fields are the arguments themselves; default values are the documented ones. Conversions between integers and identifiers, and from statuses and chunk steps to operands, keep the content and set the matching type and operation code.",
  "all constructor arguments and convertible values","tests call few constructors, with one literal each",
  [O,A+"query.rs","dash7/src/network/addressee.rs","dash7/src/file/mod.rs","dash7/src/session/mod.rs","dash7/src/types.rs",A+"operation/length.rs"],[("new functions and From/Into impls",O)],obs=["new","From","Into","Default"]),
p("P18","The command-line tool prints what the library decodes and rejects bad input",
  "For every hexadecimal or base64 input the command-line parser prints the decoded value or an error and never panics.",
  "all command lines","the tool has no tests",
  ["dash7-cli/src/main.rs","dash7-cli/src/parse.rs"],[("argument parsing and printing","dash7-cli/src/parse.rs")],obs=["stdout"]),
]
import sys
with open("/verif/properties.jsonl","w") as f:
    for x in P: 
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
TH={i["id"]:i["title"] for i in P}
m=dict(version=1,setup_cmd="true",hooks=dict(guard="none",enable="none needed: the checks read the macro-expanded crate and its public interface",source_commits=[]),
 checks=[dict(property=x["id"],quick_cmd=f"python3 /verif/lib/check.py {x['id']} quick",thorough_cmd=f"python3 /verif/lib/check.py {x['id']} thorough",
  technique="contract-based deductive verification (Verus) of the macro-expanded crate, translated mechanically on every run",level="proof",
  level_note=NOTE if (NOTE:="every in-scope function is verified against its contract for all inputs with no bound; trusted: assumed deku/std contracts, the translation, and utils::read_array (unsafe; bounded runs). A function an edit moves out of the verifier's subset is checked by bounded search, reported as bounded.") else "") for x in P if x["id"]!="P18"],
 not_applicable=[dict(property="P18",reason="the command-line front end is clap-derived argument parsing, string formatting and printing: neither clap nor fmt/IO has contracts the verifier could use, so every obligation would rest on assumed contracts for exactly the code in question")],
 notes="See DESIGN.md. Known findings and repaired defects: known-findings.txt.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
