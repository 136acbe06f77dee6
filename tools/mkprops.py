import json
AL="crates/m-bus-application-layer/src/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","No input can crash the parser",
"Every public parse, decode, annotate, decrypt and render entry point, given any bytes, any text, any key and any options, returns a result or a typed error. It never panics, never trips an arithmetic-overflow or bounds check, never exhausts the stack and never aborts the process.",
["inputs","configurations"],"All byte strings (random, truncated, mutated and structure-aware frames, very long and deeply nested ones), all hex texts, all keys, every output format and the feature configurations default, plaintext-before-extension and without decryption.",
"The tests parse a few hundred captured, well-formed frames; they never supply chains of extension bytes at the capacity limits, empty or truncated headers, reserved codes or nested link layers.",
["src/output.rs","src/mbus_data.rs","src/annotate.rs","src/rscada_xml.rs",AL+"value_information.rs",AL+"data_information.rs",AL+"lib.rs","crates/wired-mbus-link-layer/src/lib.rs","crates/wireless-mbus-link-layer/src/lib.rs","crates/m-bus-core/src/decryption.rs"],
[("bounds-checked slicing and typed errors","all TryFrom<&[u8]> implementations"),("capacity limits on extension chains",AL+"value_information.rs, "+AL+"data_information.rs")],
["return of every public entry point","panic hook","process exit status"])

prop("C02","Work and memory stay bounded by the input size",
"Decoding or rendering a telegram performs an amount of work and allocation bounded by a small multiple of the input length (plus a constant), and iterating over data records always terminates, yielding at most one item per input byte. No input makes a decode loop forever, recurse without bound or allocate disproportionately.",
["inputs"],"All byte strings up to several kilobytes, including long filler runs, long extension chains, nested extended-link-layer headers and zero-length records, in every output format.",
"Tests have no notion of cost; they only run short, real telegrams.",
["src/output.rs","src/annotate.rs",AL+"lib.rs"],
[("record iterator advances by at least one byte",AL+"lib.rs impl Iterator for DataRecords"),("fixed-size decode buffers","src/output.rs, src/mbus_data.rs")],
["counting global allocator","items yielded by the record iterator","per-call CPU time"])

prop("C03","Wired frames are accepted exactly when well formed",
"A byte string is accepted as a wired frame if and only if it is a single character, or a short frame, or a long/control frame whose start bytes, repeated length, total length, checksum and stop byte are all consistent and whose control field is a known function. For an accepted frame the reported kind, function, address class and payload are exactly those encoded in its bytes, and no single-byte corruption of a long frame is ever accepted with a changed payload.",
["inputs","fault_sequences"],"All frame kinds, all control and address bytes, all lengths 0-260, and every single-byte corruption and truncation of generated frames.",
"Tests check a handful of valid frames and one or two invalid ones; they do not enumerate control fields, addresses, length mismatches or corruptions.",
["crates/wired-mbus-link-layer/src/lib.rs","crates/m-bus-core/src/lib.rs"],
[("frame parser and checksum","crates/wired-mbus-link-layer/src/lib.rs TryFrom / validate_checksum"),("control field decoding","crates/m-bus-core/src/lib.rs TryFrom<u8> for Function")],
["wired frame parse result","canonical output frame section"])

prop("C04","Wireless framing and CRC removal are transparent",
"A wireless telegram decodes to the same link identity, transport header and records whether it is given plain, with a valid trailing frame CRC, or in Format A with per-block CRCs, and only bytes that are valid CRCs are ever removed. Plain frames whose length field does not match, and frames that are too short, are rejected, and the raw frame bytes reported are the original input bytes.",
["inputs","fault_sequences"],"All payload lengths 1-245 and contents, all CRC placements, every single corrupted CRC byte, all lengths around the minimum.",
"Tests cover a couple of captured telegrams of fixed size; block-boundary lengths and corrupted CRCs are not exercised.",
["crates/wireless-mbus-link-layer/src/lib.rs","src/output.rs"],
[("CRC-16/EN13757 block removal","crates/wireless-mbus-link-layer/src/lib.rs strip_format_a_crcs"),("trailing CRC detection","crates/wireless-mbus-link-layer/src/lib.rs trailing_frame_crc_start"),("link identity","crates/wireless-mbus-link-layer/src/lib.rs ManufacturerId")],
["wireless frame parse result","CRC stripping result","canonical output"])

prop("C05","Transport headers are decoded faithfully for every CI field",
"For every control-information byte the decoded meter identity, version, device type, access number, status flags, configuration field and extended-link-layer fields equal the values encoded at their positions in the telegram. Control-information codes that are not supported are reported as such with the link data preserved, and are never decoded as something else.",
["inputs"],"All 256 CI bytes x wired/wireless framing x random header contents, including truncated headers and invalid BCD identification numbers.",
"Tests use the CI codes found in the captured telegrams (mostly 72h, 7Ah) with fixed header values.",
["crates/m-bus-application-layer/src/lib.rs",AL+"extended_link_layer.rs","crates/m-bus-core/src/lib.rs","src/output.rs"],
[("CI dispatch and header parse",AL+"lib.rs TryFrom for UserDataBlock"),("ELL parse",AL+"extended_link_layer.rs"),("identity and transport output","src/output.rs meter_and_transport")],
["canonical output: meter, transport, decode_state, diagnostics","parse_application_layer result"])

prop("C06","Record segmentation conserves every payload byte",
"The data records reported for a payload appear in telegram order with consecutive indices, and each record's header and data bytes are exactly the bytes it occupies. Together with skipped filler bytes and the unparsed remainder they reproduce the payload: no byte is lost, duplicated, reordered or attributed to two records.",
["inputs"],"All sequences of records over every DIF/DIFE/VIF/VIFE shape, data coding, variable length, filler and special function, including truncation at every byte.",
"Tests look at selected values of selected records of fixed telegrams and never reconcile the bytes.",
["crates/m-bus-application-layer/src/lib.rs",AL+"data_record.rs",AL+"data_information.rs",AL+"value_information.rs","src/output.rs"],
[("record iterator",AL+"lib.rs impl Iterator for DataRecords"),("record sizes",AL+"data_record.rs DataRecord::parse"),("hex fields","src/output.rs record_output")],
["records[].header_hex / data_hex / index","record iterator items"])

prop("C07","DIF and DIFE fields decode to function, storage, tariff and unit",
"For every record the reported function, storage number, tariff, device (sub-unit) number and data coding are those that EN 13757-3 assigns to its data information block: one storage bit from the DIF and then four storage bits, two tariff bits and one device bit per extension byte, least significant first.",
["inputs"],"All 256 DIF values with 0 to 10 extension bytes of arbitrary content.",
"Tests pin a few blocks with at most two extension bytes, mostly with zero storage nibbles.",
[AL+"data_information.rs","src/output.rs"],
[("data information decode",AL+"data_information.rs TryFrom<&DataInformationBlock> for DataInformation"),("coding names","src/output.rs data_coding_name")],
["records[].function, storage_number, tariff, device, data_coding"])

prop("C08","Numeric record values are exact",
"The decimal value reported for an integer or BCD record is exactly the encoded number times the record's power of ten plus its additive correction, as an unrounded decimal string, for every width, sign and scale. Floating-point records report the encoded binary32 value itself and non-finite values are named, never silently replaced.",
["inputs"],"All integer widths 1-8 bytes and variable lengths up to 64 bytes, BCD of every width and both signs, all 2^32 binary32 patterns sampled, every scale and additive correction.",
"Tests check small positive values; extremes of the 48/64-bit ranges, long variable-length numbers, negative BCD and combined corrections are not reached.",
["src/output.rs",AL+"data_information.rs"],
[("exact significand and decimal scaling","src/output.rs exact_significand, signed_le_decimal, scaled_decimal, apply_power10"),("number decode",AL+"data_information.rs integer_to_value_internal, bcd_to_value_internal")],
["records[].value","low-level record value"])

prop("C09","VIF and VIFE codes map to the standard quantity, unit and scale",
"For every value information block - primary, both main extension tables and chains of combinable extension codes - the reported quantity labels, unit and power-of-ten scale are those of the EN 13757-3 tables. Codes the standard reserves are reported as reserved, never as a different physical quantity.",
["inputs"],"All 128 primary VIFs, all 128 codes of each extension table, all 128 combinable codes in chains up to the maximum length, plaintext units.",
"Tests cover a small fraction of the table rows with fixed telegrams and no chains of several extension codes.",
[AL+"value_information.rs","src/output.rs"],
[("VIF tables",AL+"value_information.rs TryFrom<&ValueInformationBlock> for ValueInformation"),("combinable codes",AL+"value_information.rs consume_orthhogonal_vife"),("unit strings","src/output.rs unit_output, ucum_component, quantity_name")],
["records[].quantities, unit, value","low-level value information"])

prop("C10","Dates and times decode to the encoded calendar fields",
"A date or date-time record (types G, F, I and J) reports exactly the day, month, year, hour, minute and second encoded in its bytes, using an ISO 8601 string only when every field is a single valid value. Wildcard and invalid fields are reported as such and never turned into a concrete date.",
["inputs"],"All 2-byte type G values exhaustively, sampled type F/I/J values with every field boundary, with and without wildcard bits.",
"Tests check one or two dates; the exhaustive field grid and wildcard combinations are not covered.",
[AL+"data_information.rs","src/output.rs",AL+"data_record.rs"],
[("temporal decode",AL+"data_information.rs DataFieldCoding::parse"),("coding selection from the VIF",AL+"data_record.rs TryFrom<&RawDataRecordHeader> for ProcessedDataRecordHeader"),("ISO rendering","src/output.rs temporal_value, temporal_iso")],
["records[].value of kind date, time, datetime"])

prop("C11","Text values and plaintext units survive decoding unchanged",
"A variable-length text record reports exactly the transmitted characters in reading order - UTF-8 when the bytes are valid UTF-8, ISO 8859-1 otherwise - and the length byte alone decides how many bytes belong to the text. A plaintext unit transmitted in the value information is kept verbatim in the typed value information, the XML rendering and the byte annotations, and never absorbs or shifts data bytes.",
["inputs","configurations"],"All text lengths 0-191, all byte values, plaintext units after the extension bytes in the default build and before them with the feature on.",
"Tests use a few short ASCII or Latin-1 strings.",
[AL+"data_information.rs",AL+"value_information.rs","src/output.rs"],
[("text decode",AL+"data_information.rs decode_text_unit"),("plaintext unit extraction",AL+"value_information.rs extract_plaintext_vife")],
["records[].value of kind text","records[].quantities / plaintext unit"])

prop("C12","A malformed tail never disturbs the records before it",
"When a telegram's record area is malformed or truncated, every record before the defect is reported exactly as it would be without the tail, the decode state is partial and a diagnostic names the record stream and the byte offset of the first unparsed byte. A telegram with no defect is reported complete with no such diagnostic; the strict record API instead returns an error with that offset and no records.",
["inputs","fault_sequences"],"All generated record sequences cut at every byte, followed by every class of malformed record (bad BCD, reserved length, overlong chains, missing data).",
"Only one or two malformed telegrams are tested and only for not succeeding silently.",
["src/output.rs",AL+"lib.rs"],
[("record collection and diagnostics","src/output.rs collect_records, build_output"),("strict record API","src/output.rs decode_data_records")],
["records, decode_state, diagnostics","decode_data_records result"])

prop("C13","Encrypted payloads are never presented as meter data",
"A telegram that declares its payload encrypted yields no records in the canonical document and its renderings unless a key was supplied and decryption ran; without a key the ciphertext is preserved verbatim and the missing key is diagnosed in the JSON, YAML, CSV, table and mermaid renderings. With a key the output is marked as decrypted but unverified, and a key supplied for a cleartext telegram is reported as unused and changes nothing else.",
["inputs","configurations"],"All security modes and transport headers (short, long, extended link layer), wired and wireless, random payloads and keys, with and without decryption support; the XML of wired telegrams, which deliberately mirrors libmbus, is outside.",
"Tests use one encrypted telegram and two formats.",
["src/output.rs","src/mbus_data.rs","src/rscada_xml.rs","src/annotate.rs"],
[("security state machine","src/output.rs prepare_security, security_fields"),("header-only XML","src/rscada_xml.rs render_with_optional_decryption"),("annotation of encrypted payload","src/annotate.rs is_long_tpl_encrypted, is_short_tpl_encrypted")],
["canonical output security section","all rendered formats"])

prop("C14","Decryption recovers the encrypted plaintext",
"For supported AES-CBC security modes, a telegram encrypted under a key and decoded with that key gives the same records as the cleartext telegram, for every identity, access number and payload length; the initialisation vector follows the mode's definition and trailing partial blocks pass through. Unsupported modes, unknown meters and short output buffers give a typed error and never write outside the result.",
["inputs","configurations"],"Random keys, identities, access numbers, payload lengths 0-256 and all 32 security modes, short and long headers, buffers of every size.",
"Tests decrypt a few fixed vectors.",
["crates/m-bus-core/src/decryption.rs",AL+"lib.rs","src/output.rs","src/mbus_data.rs"],
[("AES-CBC and IV construction","crates/m-bus-core/src/decryption.rs decrypt_into"),("context selection",AL+"lib.rs decrypt_variable_data_with_context"),("key lookup","crates/m-bus-core/src/decryption.rs StaticKeyProvider")],
["decrypted bytes","records after decryption","typed errors"])

prop("C15","Hexadecimal input is parsed strictly and position-accurately",
"Text is accepted as input if and only if it is compact hexadecimal or whole byte tokens, optionally 0x-prefixed, separated by whitespace, colons or hyphens; every accepted spelling of the same bytes decodes identically. Anything else is rejected with a stable error code and, for malformed digits, the offset of the offending token - bytes are never dropped, padded or guessed.",
["inputs"],"All spellings of random byte strings (case, separators, prefixes, mixes) and all single-character mutations, including non-ASCII text and odd lengths.",
"Tests try a handful of good and bad strings.",
["src/output.rs"],
[("strict hex tokenizer","src/output.rs decode_hex_bytes, push_hex_token")],
["decode_hex_bytes result","error code and offset"])

prop("C16","Canonical JSON and YAML carry one identical, well-formed model",
"The JSON and YAML renderings parse with standard parsers to the same document as the typed decode result, with the current schema version, the documented top-level sections, snake_case keys, uppercase hex fields and at most one value per record. Optional sections appear exactly when their content exists, and toggling manufacturer enrichment adds or removes only the enrichment section; the default options mean no key and enrichment included.",
["inputs","configurations"],"All telegram shapes including partial, encrypted, fixed-structure, single-character and record texts containing quotes, control characters and non-ASCII characters.",
"One telegram is checked for key presence; no round trip and no hostile text.",
["src/output.rs","src/manufacturers.rs"],
[("typed canonical model","src/output.rs DecodedOutput and serde derives"),("renderers","src/output.rs render_bytes"),("enrichment","src/output.rs enrichment_for, src/manufacturers.rs")],
["rendered JSON", "rendered YAML","typed decode result"])

prop("C17","CSV output is one faithful header and row",
"The CSV rendering is valid RFC 4180 text with exactly one header row and one data row of equal width, and every cell equals the corresponding field of the canonical model, however many records there are and whatever characters their values contain.",
["inputs"],"All telegram shapes and record texts with commas, quotes, newlines and non-ASCII characters; 0 to about 100 records.",
"Tests count lines on one telegram with harmless text.",
["src/output.rs"],
[("CSV renderer","src/output.rs render_csv, csv_frame_row, csv_record_values")],
["rendered CSV versus canonical model"])

prop("C18","Tables never exceed the requested width and omit nothing",
"Every line of the table rendering fits the requested display width for every permitted width, box rows are aligned and no control character of the telegram reaches the terminal. The table shows every record's reading and the frame's identity whatever the layout, and widths below the documented minimum are refused with a typed error.",
["inputs","configurations"],"All widths from 0 to 300 and single widths up to 200,000, all telegram shapes, texts with wide, combining, zero-width, control and emoji characters.",
"Tests check a few widths on one telegram with ASCII text.",
["src/output.rs"],
[("width-aware layout","src/output.rs render_table, box_table, wrap_display")],
["rendered table lines"])

prop("C19","Mermaid output is injection-safe and complete",
"The mermaid rendering is a syntactically valid flowchart in which every node, class and edge is defined exactly once and belongs to the telegram's sections, with one node per data record. No value taken from the telegram can introduce new lines, quotes, nodes or directives into the diagram.",
["inputs"],"All telegram shapes and record texts with quotes, brackets, newlines, angle brackets and control characters.",
"Tests search for a few substrings on one telegram.",
["src/output.rs","src/mbus_data.rs"],
[("mermaid renderer and escaping","src/output.rs render_mermaid, mermaid_escape")],
["rendered mermaid text"])

prop("C20","XML output reproduces libmbus normalized XML and stays well formed",
"For supported telegrams the XML rendering is well-formed XML whose header fields and record fields (function, storage number, tariff, device, unit, quantity, normalized value) equal what the libmbus normalization rules give for the same bytes. Values taken from the telegram cannot break the markup, and unsupported telegrams give a typed error.",
["inputs"],"All wired and wireless telegram shapes, every DIF/VIF/VIFE code libmbus knows, fixed data structures, hostile text.",
"Tests compare about sixty recorded telegrams byte for byte; most table rows, negative values, dates and text never occur in them.",
["src/rscada_xml.rs"],
[("normalization port","src/rscada_xml.rs variable_value_decode, vib_unit_normalize, VIF_TABLE"),("escaping","src/rscada_xml.rs xml_encode")],
["rendered XML"])

prop("C21","Byte annotations tile the telegram and agree with the decode",
"The annotation of any accepted telegram is a sequence of non-empty, contiguous segments covering the entire original input exactly once, with offsets into the original bytes even when CRCs were removed. Segments grouped as a data record cover exactly that record's bytes as reported by the canonical decode, and the textual and JSON annotation renderings describe the same segments.",
["inputs"],"All wired and wireless telegram shapes, every CI field, Format A and trailing CRCs, encrypted payloads with and without key, malformed tails.",
"Tests annotate a few fixed telegrams.",
["src/annotate.rs","src/mbus_data.rs"],
[("segment construction","src/annotate.rs annotate_frame and helpers"),("CRC offset map","src/annotate.rs build_format_a_offset_map"),("JSON envelope","src/mbus_data.rs render_annotated_bytes")],
["annotate_frame result","annotated and annotated-text renderings"])

prop("C22","Decoding is a pure function of its input",
"The same bytes and options always give byte-identical results, whatever was decoded before, in whichever thread, with however many decodes running concurrently, and starting an iteration or rendering twice from the same parsed value gives the same items. The caller's input is never modified.",
["inputs","schedules","histories"],"All telegram shapes in random orders and repetitions, interleaved across up to 8 threads, all formats.",
"Tests run each telegram once in one thread.",
["src/output.rs","src/mbus_data.rs","src/annotate.rs",AL+"lib.rs"],
[("no global mutable state; borrowed, cloneable iterators","whole crate")],
["repeated and concurrent call results"])

prop("C23","Errors carry stable codes, layers and offsets",
"Every failure of the public decode and render API is reported with the documented stable code and layer for its cause - input, format, option, frame, security, application or serialization - and the string-returning compatibility wrapper reports the same failure text instead of partial or empty output. Format names are recognised case-insensitively with their documented aliases and nothing else.",
["inputs","configurations"],"All failure causes crossed with all entry points, formats, option values and format-name spellings.",
"Tests check three codes on three inputs.",
["src/output.rs","src/mbus_data.rs"],
[("error taxonomy","src/output.rs OutputError::code, layer, byte_offset"),("format names","src/output.rs FromStr for OutputFormat"),("compatibility wrapper","src/mbus_data.rs serialize_mbus_data")],
["errors returned by decode/render entry points"])

prop("C24","Command line, Python and web bindings agree with the Rust library",
"For the same telegram, format and options the command-line tool, the Python bindings and the web bindings give the same document as the Rust library, and they fail exactly when it fails, with the same stable error code. Invalid keys, option values and argument types are refused with their documented error and never crash the host process.",
["inputs","configurations"],"Sampled telegrams of every shape, all formats, keys valid and invalid, widths, enrichment on and off, file and inline input, str/bytes/bytearray arguments.",
"Binding tests run a dozen calls on two telegrams.",
["cli/src/main.rs","python/src/lib.rs","wasm/src/lib.rs"],
[("CLI argument mapping","cli/src/main.rs run, parse_key"),("Python argument mapping","python/src/lib.rs extract_bytes, extract_key")],
["CLI stdout, stderr and exit status","Python return values and exceptions"])

prop("C25","Feature configurations agree wherever a feature is not involved",
"A telegram that does not need an optional feature decodes identically in every feature configuration: without decryption support every cleartext telegram is unchanged and every key use is refused as unavailable, and the plaintext-before-extension option changes only records that carry a plaintext unit.",
["inputs","configurations"],"The same generated telegrams decoded by builds with and without decryption and plaintext-before-extension, and by the parser core without the standard library.",
"Each configuration is tested separately on fixed telegrams; results are never compared between builds.",
["Cargo.toml","src/output.rs",AL+"value_information.rs"],
[("feature gates","cfg(feature) in src/output.rs, src/rscada_xml.rs, "+AL+"value_information.rs")],
["canonical JSON of each build"])

prop("C26","Manufacturer codes, identifiers and enums round-trip",
"Encoding and decoding of manufacturer codes, BCD identification numbers, device types, security modes and configuration fields are inverse to each other on their whole domain, and invalid encodings are rejected with a typed error. Manufacturer enrichment depends only on the three-letter code and is attached exactly when the code is in the bundled registry.",
["inputs"],"All 65536 manufacturer ids, all 256 device types, all security modes and configuration values, all BCD digit patterns sampled and every invalid digit.",
"Tests check a few codes.",
["crates/m-bus-core/src/lib.rs","src/manufacturers.rs","src/output.rs"],
[("manufacturer code","crates/m-bus-core/src/lib.rs ManufacturerCode"),("BCD identification","crates/m-bus-core/src/lib.rs bcd_hex_digits_to_u32"),("registry","src/manufacturers.rs lookup_manufacturer")],
["core type conversions","enrichment section"])

prop("C27","Highlighted output preserves the source and is markup-safe",
"Highlighting any source text in any language yields only span elements with prefixed classes whose text content, unescaped, is exactly the source. Untrusted source text can never introduce other elements, attributes or unbalanced tags.",
["inputs"],"All rendered outputs and random hostile texts, every language name including unknown ones.",
"Tests highlight four tiny snippets.",
["wasm/src/highlight.rs"],
[("syntect-based highlighter","wasm/src/highlight.rs highlight_source"),("CSV highlighter and escaping","wasm/src/highlight.rs highlight_csv, push_escaped_html")],
["returned HTML"])

prop("C28","Low-level and legacy APIs tell the same story as the canonical output",
"The typed low-level API (frame, application layer, record iterator), its serde form and the retained legacy string formats report the same frame fields, identities, record counts and values as the canonical decode of the same telegram. Legacy outputs are always well formed, including for undecodable input.",
["inputs"],"All telegram shapes, clear and encrypted, all legacy format names, malformed and lenient hex text.",
"Tests compare single fields of single telegrams per API and never across APIs.",
["src/mbus_data.rs",AL+"lib.rs",AL+"data_record.rs","src/output.rs"],
[("legacy serializers","src/mbus_data.rs parse_to_json, parse_to_yaml, parse_to_csv, parse_to_hexview"),("typed parse","src/mbus_data.rs TryFrom for MbusData")],
["MbusData values and serde JSON","legacy format strings","canonical model"])

prop("C29","Fixed data structures decode to their two counters",
"A fixed-data-structure telegram reports the identification number, access number, status, medium and both counters exactly as encoded, wherever the typed API and the output formats show them, and rejects counters or identifiers that are not valid BCD with a typed application error instead of a wrong number.",
["inputs"],"All access numbers, status bytes, medium/unit bytes and BCD counters, valid and invalid, truncated telegrams.",
"Tests parse one fixed-structure telegram.",
[AL+"lib.rs","src/output.rs","src/rscada_xml.rs"],
[("fixed structure parse",AL+"lib.rs TryFrom for UserDataBlock (CI 73h/77h)"),("counter decode",AL+"lib.rs Counter::from_bcd_hex_digits"),("XML rendering","src/rscada_xml.rs render_fixed")],
["application layer result","canonical output","XML output"])

prop("C30","The web page shows, copies and links exactly what was asked for",
"For any input, key and sequence of user actions, the web page passes its fields unchanged to the bindings and shows, copies and offers for download the text returned for the latest request, or its coded error and nothing to copy; links carry the input and format but never the key, and telegram text never becomes markup. Its hex viewer shows every byte once under its field, marks exactly the bytes of the chosen field and opens or closes only the chosen record.",
["inputs","histories"],"All inputs and spellings, valid, wrong and malformed keys, opened links, every format button in any order, resizing, copying, sharing, diagrams finishing late or failing, and every byte, field and record of the hex viewer.",
"No test runs the page's script.",
["docs/index.html"],
[("request and output","docs/index.html parseInput, renderCodeViewer, renderOutputError, updateDownload"),("hex viewer","docs/index.html renderHexViewer")],
["document tree after each action","arguments handed to the bindings","clipboard, download and address"])

prop("C31","Every kind of application message is told from every other",
"The application layer reader gives each control information byte its own message kind with exactly the bytes behind its header as payload, a refusal naming the kind for known kinds it does not decode, and an error carrying the byte for unknown ones; truncated headers are reported as missing data. A block offers records only where they are readable and reports its protection and payload length correctly, reset parameters and directions are those of the standard, and the extended link layer read on its own has the size and fields of its format.",
["inputs"],"All 256 control information bytes with payloads of every length up to 56 bytes, all 256 reset parameters, all kinds with a fixed direction, all three extended link layer formats.",
"Tests read about ten control information bytes.",
[AL+"lib.rs",AL+"extended_link_layer.rs"],
[("kind of a message",AL+"lib.rs TryFrom<u8> for ControlInformation, TryFrom<&[u8]> for UserDataBlock"),("reset parameters",AL+"lib.rs ApplicationResetSubcode"),("extended link layer",AL+"extended_link_layer.rs ExtendedLinkLayer::parse")],
["typed application layer result","accessors of the block","direction of a kind"])

prop("C32","Records read the same whole, in parts and from the iterator",
"Reading a data record through its parts (data information, value information, header, data) gives the blocks, sizes and value of reading it whole, which in turn equals what the record iterator, its list and its serialized form deliver at that offset, with or without a transport header. A record is exactly its own bytes: they alone give the same record and any shorter prefix is refused; the other byte order reverses decimal numbers and changes nothing else.",
["inputs"],"All data information bytes with extensions, all value information codings, every data coding, valid, damaged and truncated record areas, every prefix of every record, both byte orders.",
"Tests read single parts of single records and never compare ways of reading.",
[AL+"data_record.rs",AL+"data_information.rs",AL+"value_information.rs",AL+"lib.rs"],
[("record and header",AL+"data_record.rs DataRecord, DataRecordHeader, RawDataRecordHeader"),("data information",AL+"data_information.rs DataInformationBlock, DataFieldCoding::parse"),("iterator",AL+"lib.rs DataRecords")],
["typed results of each reader","sizes and offsets","serde form"])

prop("C33","Serialized values read back as themselves",
"Every decoded value that owns its contents and can be deserialized (identities, headers, configuration, status, functions, addresses, data and value information, units, labels, dates, errors) gives an equal value when its JSON, YAML or positional binary form is read again. Reading a damaged form is refused or gives a value that itself survives being written and read.",
["inputs"],"All manufacturer numbers and configuration fields, all device types, addresses, status bytes, reset parameters and functions, headers of every kind, records of every data and value information, errors of every kind, and damaged serialized texts.",
"Tests write values and never read them back.",
[AL+"lib.rs",AL+"value_information.rs",AL+"data_information.rs",AL+"extended_link_layer.rs","crates/m-bus-core/src/lib.rs","crates/wireless-mbus-link-layer/src/lib.rs"],
[("serialization attributes","derive and serde attributes of the public types"),("long header",AL+"lib.rs LongTplHeader")],
["serialized JSON, YAML and binary forms","values read from them"])

prop("C34","Values can be logged on embedded targets without loss",
"With the embedded logging feature enabled, every decoded value (frames' functions and addresses, application data, headers, records, errors) can be logged: logging ends, does not crash, writes the same bytes for the same value and different bytes for values whose debug text differs. Enabling it changes nothing about the values.",
["inputs","configurations"],"Short frames, telegrams of both link layers, application data of every kind, record areas, and inputs differing from each other in one place.",
"No test configuration enables the logging feature.",
[AL+"lib.rs",AL+"value_information.rs",AL+"data_information.rs",AL+"data_record.rs","crates/m-bus-core/src/lib.rs","crates/wired-mbus-link-layer/src/lib.rs"],
[("log formats","implementations of defmt::Format, written or derived"),("status field",AL+"lib.rs StatusField")],
["bytes handed to the logger","end of the logging process"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
