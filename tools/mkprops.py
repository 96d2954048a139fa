#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Reading malformed input never panics, overflows or hangs",
  "For every byte sequence, every read API of the crate (format detection, parsing, every iterator, lookup, accessor, decompression entry point and archive/dyld-cache reader) returns a value, None or an error: it never panics, never overflows an integer or an index, and never recurses or loops without bound. Memory stays in proportion to the input size (for decompression, to the declared size plus the window of the codec); work stays polynomial (overlapping tables can make it quadratic), and no iterator yields items for ever, although the compact opcode encodings of Mach-O and the dyld cache can describe many more items than they have bytes; an iterator that has returned an error either stops or keeps making progress.",
  ["inputs"], "all byte strings given as a file (truncated, corrupted, adversarial), in all formats, and all call sequences over the returned objects",
  "The existing tests read a handful of valid files written by the crate itself; they reach no malformed headers, overlapping ranges, huge counts or cyclic tables.",
  ["src/read/mod.rs", "src/read/any.rs", "src/read/elf/*.rs", "src/read/coff/*.rs", "src/read/pe/*.rs", "src/read/macho/*.rs", "src/read/xcoff/*.rs", "src/read/archive.rs", "src/read/wasm.rs", "src/read/util.rs", "src/read/read_ref.rs", "src/pod.rs"],
  [("bounds-checked reads", "src/read/read_ref.rs impl ReadRef for &[u8]; src/read/util.rs Bytes"), ("checked arithmetic on file-controlled offsets", "throughout src/read/**"), ("iterators that clear themselves on error", "src/read/{elf,macho,pe}/** iterators")],
  ["public read API"])

p("C02", "No undefined behaviour; results stay inside the input",
  "For every input and every sequence of safe API calls, the crate performs no out-of-bounds, misaligned, uninitialised or dangling memory access and creates no invalid value, whatever the alignment or address of the buffer it is given. Every slice, string or structure it returns that borrows from the input lies entirely within the bytes the caller supplied.",
  ["inputs"], "all inputs, buffer alignments and lengths, and safe API call sequences",
  "Tests run without a UB interpreter or sanitizer, on well-aligned, exactly sized, well-formed buffers.",
  ["src/pod.rs", "src/read/util.rs", "src/read/read_ref.rs", "src/read/read_cache.rs", "src/endian.rs", "src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs", "src/archive.rs"],
  [("Pod casts check size and alignment", "src/pod.rs from_bytes/slice_from_bytes"), ("Pod impls only for all-bit-patterns-valid types", "unsafe_impl_pod! in src/{elf,macho,pe,xcoff,archive,endian}.rs"), ("lifetime extension of cached buffers", "src/read/read_cache.rs")],
  ["returned slices and references"])

p("C03", "Results do not depend on how the input is stored or fetched",
  "Parsing a file held in a byte slice (at any alignment), through a caching reader over a seekable stream (including streams with short reads), or as a sub-range of a larger file gives the same results for every query, including the same success or failure. The caching reader returns exactly the requested bytes of the underlying stream for every history of reads, never data from outside the requested range, (delimited reads through the cache are limited to 4096 bytes, its documented size of strings) and a failed stream operation surfaces as an error without corrupting later answers.",
  ["inputs", "histories", "fault_sequences"], "all inputs, all request histories (ranges, repeated and overlapping requests, delimited reads, clears), all splits of stream reads and injected stream errors",
  "Tests read from slices and, rarely, from one cached file; no test compares storages, issues overlapping cached requests or injects short reads and errors.",
  ["src/read/read_ref.rs", "src/read/read_cache.rs"],
  [("cache keyed by offset and size", "src/read/read_cache.rs read_bytes_at"), ("delimited read cache", "src/read/read_cache.rs read_bytes_at_until"), ("sub-range translation", "src/read/read_cache.rs ReadCacheRange")],
  ["ReadRef methods", "File over each ReadRef"])

p("C04", "The different views of one file agree with each other",
  "The unified file interface and the format-specific interface report the same answer for every query, and within one interface every redundant path agrees: iteration, lookup by index and lookup by name, counts, index values carried by items, raw data versus ranged data versus file ranges, segment versus section data at an address, and section/symbol cross references. Data reported for an address range is the sub-slice of the containing section or segment, and absent when the range is not contained in it.",
  ["inputs"], "all files accepted by any parser (well-formed or not), all items and all address ranges",
  "Tests look at a few accessors of a few files; agreement between all pairs of access paths over arbitrary files is not sampled.",
  ["src/read/any.rs", "src/read/traits.rs", "src/read/mod.rs", "src/read/util.rs", "src/read/*/file.rs", "src/read/*/section.rs", "src/read/*/segment.rs", "src/read/*/symbol.rs"],
  [("enum dispatch", "src/read/any.rs with_inner!/map_inner!"), ("data_range", "src/read/util.rs data_range"), ("section/symbol_by_index", "src/read/*/file.rs")],
  ["Object, ObjectSegment, ObjectSection, ObjectSymbol, ObjectSymbolTable, ObjectComdat"])

p("C05", "ELF files are read exactly as the ELF specification defines",
  "For every ELF file (32/64-bit, both byte orders, any valid table placement and entry order), the header, segments, sections, symbols, relocations and section groups reported are exactly those encoded in the file: names, addresses, sizes, alignment, file ranges, kinds, flags, section references, bindings, weak/global/local scope, relocation kind, encoding, size, target and addend. This includes extended section numbering, extended symbol section indices, REL, RELA, CREL and RELR relocations, the MIPS 64-bit relocation layout, SHT_NOBITS sections and dynamic symbols.",
  ["inputs"], "all well-formed ELF files over class, byte order, machine, table order and content",
  "Tests round-trip a few objects written by the crate's own writer on a few architectures.",
  ["src/read/elf/file.rs", "src/read/elf/section.rs", "src/read/elf/symbol.rs", "src/read/elf/segment.rs", "src/read/elf/relocation.rs", "src/read/elf/comdat.rs", "src/elf.rs"],
  [("header and section table parsing", "src/read/elf/file.rs, section.rs"), ("relocation mapping", "src/read/elf/relocation.rs parse_relocation"), ("CREL/RELR iterators", "src/read/elf/relocation.rs")],
  ["Object traits on ElfFile", "low-level elf traits"])

p("C06", "ELF dynamic metadata and hash lookups match the encoded tables",
  "Dynamic entries, needed libraries, symbol versions, notes, GNU properties, build attributes, imports and exports reported for an ELF file are exactly those encoded in it, for both byte orders and classes. Looking up any name in a SysV or GNU hash table finds exactly the symbol that a linear scan of the dynamic symbol table finds (and nothing for absent names), with versions taken into account.",
  ["inputs"], "all well-formed dynamic tables, version tables, hash tables (any bucket and bloom geometry), note and attribute sections and all lookup names",
  "No existing test reads hash tables, versions, notes, properties or attributes.",
  ["src/read/elf/dynamic.rs", "src/read/elf/hash.rs", "src/read/elf/version.rs", "src/read/elf/note.rs", "src/read/elf/attributes.rs", "src/read/elf/import.rs", "src/read/elf/export.rs", "src/elf.rs"],
  [("hash chains and bloom filter", "src/read/elf/hash.rs"), ("version table building", "src/read/elf/version.rs"), ("note alignment", "src/read/elf/note.rs"), ("dynamic table", "src/read/elf/dynamic.rs")],
  ["HashTable, GnuHashTable, VersionTable, NoteIterator, AttributesSection, imports(), exports()"])

p("C07", "PE images are read exactly as the PE specification defines",
  "For every PE32 and PE32+ image, the headers, sections, address-to-data mapping, symbols, imports (by name and ordinal, bound or not, delay-loaded), exports (by ordinal, named, forwarded), base relocations, resources, rich header, debug directory and data directories reported are exactly those encoded. An address maps to file bytes only where the section both maps and stores it.",
  ["inputs"], "all well-formed PE images over bitness, section layout and directory contents",
  "Tests write two minimal PE files and read almost nothing back.",
  ["src/read/pe/file.rs", "src/read/pe/section.rs", "src/read/pe/import.rs", "src/read/pe/export.rs", "src/read/pe/relocation.rs", "src/read/pe/resource.rs", "src/read/pe/rich.rs", "src/read/pe/data_directory.rs", "src/pe.rs"],
  [("RVA to data mapping", "src/read/pe/section.rs pe_data_at/pe_file_range"), ("import/export tables", "src/read/pe/import.rs, export.rs"), ("directories", "src/read/pe/data_directory.rs")],
  ["PeFile32/64 accessors", "Object traits"])

p("C08", "COFF objects, big objects and import stubs are read exactly",
  "For every COFF object (regular and /bigobj), the header, sections (long names, overflowed relocation counts, uninitialised data), symbols (auxiliary records, weak externals, commons, absolute and undefined), relocations, COMDAT groups and string table reported are exactly those encoded. A short import object reports the machine, symbol, library, import name form and kind encoded in it.",
  ["inputs"], "all well-formed COFF, bigobj and short-import objects",
  "Tests round-trip a few symbols of one x86-64 COFF object through the crate's own writer.",
  ["src/read/coff/file.rs", "src/read/coff/section.rs", "src/read/coff/symbol.rs", "src/read/coff/relocation.rs", "src/read/coff/comdat.rs", "src/read/coff/import.rs"],
  [("section and symbol name decoding", "src/read/coff/section.rs, symbol.rs"), ("relocation mapping", "src/read/coff/relocation.rs"), ("import objects", "src/read/coff/import.rs")],
  ["CoffFile/CoffBigFile accessors", "ImportObjectData"])

p("C09", "Mach-O files are read exactly as the Mach-O format defines",
  "For every Mach-O file (32/64-bit, both byte orders) and fat container, the header, load commands, segments, sections, symbols, relocations (paired, scattered and addend forms), entry point, UUID, build metadata and per-architecture slices reported are exactly those encoded. Symbol sizes, section membership, scope, weakness and the debug object map derived from STAB entries follow the encoded tables.",
  ["inputs"], "all well-formed Mach-O and fat files over width, byte order, cpu type and load command order",
  "Tests round-trip a handful of objects from the crate's own writer.",
  ["src/read/macho/file.rs", "src/read/macho/load_command.rs", "src/read/macho/segment.rs", "src/read/macho/section.rs", "src/read/macho/symbol.rs", "src/read/macho/relocation.rs", "src/read/macho/fat.rs", "src/macho.rs"],
  [("load command iteration", "src/read/macho/load_command.rs"), ("relocation decoding", "src/read/macho/relocation.rs, src/macho.rs RelocationInfo"), ("STAB object map", "src/read/macho/symbol.rs")],
  ["MachOFile32/64 accessors", "MachOFatFile32/64"])

p("C10", "Mach-O linking and signing data decode to what they encode",
  "Rebase and bind opcode streams, the exports trie, chained fixups, function starts, code signatures and dyld shared cache mappings, images and slide information decode to exactly the sequence of operations, names, addresses, addends and hashes they encode, in file order. Imports and exports reported for the file are exactly the symbols those tables define.",
  ["inputs"], "all well-formed opcode streams, tries, fixup chains (every pointer format), function-start lists, signatures and cache files",
  "No existing test decodes any of these structures.",
  ["src/read/macho/dyld_info.rs", "src/read/macho/exports_trie.rs", "src/read/macho/fixup.rs", "src/read/macho/function_starts.rs", "src/read/macho/codesign.rs", "src/read/macho/dyld_cache.rs", "src/read/macho/import.rs", "src/read/macho/export.rs"],
  [("opcode interpreters", "src/read/macho/dyld_info.rs"), ("trie walk", "src/read/macho/exports_trie.rs"), ("pointer formats", "src/read/macho/fixup.rs"), ("slide info", "src/read/macho/dyld_cache.rs")],
  ["iterators of these modules", "Object::imports/exports"])

p("C11", "XCOFF files are read exactly as the XCOFF format defines",
  "For every 32-bit and 64-bit XCOFF file, the headers, sections, symbols with their auxiliary entries (csect, file, function, DWARF), relocations, overflow section counts and string table reported are exactly those encoded, including names, kinds, scopes, sizes, alignments and containing csects.",
  ["inputs"], "all well-formed XCOFF files over width and content",
  "Tests round-trip one small XCOFF64 object.",
  ["src/read/xcoff/file.rs", "src/read/xcoff/section.rs", "src/read/xcoff/symbol.rs", "src/read/xcoff/relocation.rs", "src/read/xcoff/comdat.rs", "src/read/xcoff/segment.rs", "src/xcoff.rs"],
  [("symbol and aux decoding", "src/read/xcoff/symbol.rs"), ("section kinds", "src/read/xcoff/section.rs"), ("relocation decoding", "src/read/xcoff/relocation.rs, src/xcoff.rs")],
  ["XcoffFile32/64 accessors"])

p("C12", "Archives list exactly their members and symbol index",
  "For every ar archive (GNU, BSD/Darwin, COFF, AIX big, and thin variants), iteration yields every member once and in order with its exact name, header fields, size, offset and data, and the symbol index lists exactly the encoded symbol and member pairs, each resolving to the member at that offset. Member data is exactly the stored bytes, without padding or extended-name prefixes.",
  ["inputs"], "all well-formed archives: any number, size parity and name length of members, any symbol index, all variants",
  "Existing tests hold a few tiny in-line archives for kind detection and names.",
  ["src/read/archive.rs", "src/archive.rs"],
  [("member parsing and padding", "src/read/archive.rs ArchiveMember::parse"), ("extended names", "src/read/archive.rs parse_sysv/bsd_extended_name"), ("symbol index", "src/read/archive.rs ArchiveSymbolIterator")],
  ["ArchiveFile::members/member/symbols"])

p("C13", "WebAssembly modules are read exactly as encoded",
  "For every valid WebAssembly module, the sections (standard and custom), their data and file ranges, the symbols derived from imports, exports, functions, globals, data segments and the name section, and the imports and exports reported are exactly those encoded.",
  ["inputs"], "all valid modules: any section subset and order allowed by the specification, any LEB encoding, with and without linking and name sections",
  "No existing running test reads a WebAssembly module.",
  ["src/read/wasm.rs"],
  [("payload walk", "src/read/wasm.rs WasmFile::parse"), ("symbol derivation", "src/read/wasm.rs"), ("code and data ranges", "src/read/wasm.rs WasmSection")],
  ["WasmFile accessors"])

p("C14", "Compressed sections decompress to exactly the original bytes",
  "For every section compressed in the ELF (zlib, zstd) or GNU (.zdebug) scheme, in both classes and byte orders, the reported format, compressed range and uncompressed size are those encoded and the uncompressed data equals the original bytes. A section that is not compressed is returned unchanged, and data that is not a valid stream of its format, is truncated, or does not decompress to the declared size is an error, never wrong data or an allocation beyond the declared size plus a constant.",
  ["inputs"], "all payloads and sizes, all containers, all corruptions of the header or stream",
  "Existing tests decompress one or two fixed payloads.",
  ["src/read/elf/compression.rs", "src/read/gnu_compression.rs", "src/read/mod.rs", "src/read/elf/section.rs", "src/read/macho/section.rs", "src/read/coff/section.rs"],
  [("compression header", "src/read/elf/compression.rs, src/read/gnu_compression.rs"), ("decompress", "src/read/mod.rs CompressedData::decompress")],
  ["ObjectSection::compressed_data/compressed_file_range/uncompressed_data"])

p("C15", "Address maps answer every lookup as a linear search would",
  "For every set of symbols, the symbol map's lookup of any address returns the entry a linear search would select (one at the greatest address not above it, or the one containing it), or nothing, and its entries are sorted. The map built for a file holds one entry per address of its defined, named text and data symbols, with unknown sizes bounded by the next symbol or section end. The object map returns the entry whose range contains the address, and only for addresses inside it; the relocation map applies exactly the encoded relocation to the value at each offset and leaves others unchanged.",
  ["inputs"], "all symbol sets (duplicates, zero and maximal addresses, zero sizes, any order) and all query addresses",
  "Tests query a few fixed points of tiny maps.",
  ["src/read/symbol_map.rs", "src/read/mod.rs", "src/read/macho/symbol.rs", "src/read/elf/relocation.rs"],
  [("binary search", "src/read/symbol_map.rs"), ("object map ranges", "src/read/mod.rs ObjectMap"), ("relocation map", "src/read/mod.rs RelocationMap")],
  ["SymbolMap::get/symbols", "ObjectMap::get", "RelocationMap::relocate"])

p("C16", "Primitive decoders and encoders follow their definitions exactly",
  "Endian-aware integers round-trip and decode to the byte order selected, at compile time or run time; plain-data casts succeed exactly when the bytes suffice and expose exactly those bytes; the byte cursor, LEB128 readers, alignment helpers and string table lookups return exactly what their specification says for every input and boundary, and an error otherwise. LEB128 and alignment writers produce what those readers accept.",
  ["inputs"], "all values, widths, byte orders, offsets, lengths, encodings (including non-minimal and overlong LEB128)",
  "Unit tests check a few constants per helper.",
  ["src/endian.rs", "src/pod.rs", "src/read/util.rs", "src/read/read_ref.rs", "src/write/util.rs"],
  [("endian read/write", "src/endian.rs"), ("Bytes cursor", "src/read/util.rs"), ("StringTable", "src/read/util.rs"), ("write_uleb128/sleb128", "src/write/util.rs")],
  ["Endian, U16..I64Bytes, Bytes, StringTable, write::util"])

p("C17", "A written object file reads back as the object described",
  "For every object described through the unified write interface, in every supported format, architecture and byte order, the file written parses successfully and contains exactly the sections, data, alignment, flags, symbols (name, value, size, kind, scope, weakness, section) and COMDAT groups that were described, up to the documented format-specific mapping. Common, TLS, undefined, absolute, file and section symbols keep their meaning.",
  ["inputs", "configurations"], "all sequences of write calls (sections, subsections, appended data, bss, symbols, comdats, flags, mangling) in all format/architecture/endianness combinations the writer accepts",
  "Tests build one small object per format and architecture.",
  ["src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs"],
  [("Object model", "src/write/mod.rs"), ("format back ends", "src/write/{elf,coff,macho}/object.rs, src/write/xcoff.rs")],
  ["write::Object::write output, parsed independently and with the reader"])

p("C18", "A written relocation means what was requested",
  "Every relocation added through the unified write interface either is refused with an error or is written so that its place, target symbol, kind, encoding, size and effective addend, as defined by the target format and architecture, are those requested. Implicit addends are stored in the section data without disturbing neighbouring bytes. A request that the format has a relocation type for, with an addend that its field holds, is not refused.",
  ["inputs", "configurations"], "all supported format/architecture combinations, all relocation kinds, encodings, sizes, addends and explicit relocation types",
  "Tests write one or two relocations on x86-64 and check them with the crate's own reader.",
  ["src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs"],
  [("relocation translation", "*_translate_relocation / *_fixup_relocation in src/write/**"), ("implicit addends", "src/write/mod.rs write_relocation_addend")],
  ["relocation entries and section bytes of the output"])

p("C19", "Everything the object writer emits is structurally valid",
  "Every file the unified write interface produces is well formed by the rules of its format: header counts, offsets and sizes are right, tables and section data lie inside the file without overlapping, alignment requirements of sections, tables and the format hold, string offsets reference terminated strings, symbol ordering rules and cross references (links, info, indices, group members, auxiliary entries) are right, and padding is zero.",
  ["inputs", "configurations"], "all objects accepted by the writer in every format and architecture",
  "Tests only parse a few outputs with the crate's own lenient reader.",
  ["src/write/elf/object.rs", "src/write/elf/writer.rs", "src/write/coff/object.rs", "src/write/coff/writer.rs", "src/write/macho/object.rs", "src/write/macho/encoder.rs", "src/write/xcoff.rs"],
  [("offset reservation and alignment", "src/write/**/writer.rs, src/write/macho/object.rs, src/write/xcoff.rs")],
  ["bytes of the output, checked by independent strict parsers"])

p("C20", "Writing is deterministic, sized exactly and fault tolerant",
  "Writing the same description twice gives identical bytes, whichever output sink is used (vector, streaming writer, any chunking), and the amount written equals the amount reserved. A sink that fails or refuses space makes writing return an error rather than panic or report success, and whatever was written before the fault is a prefix of the correct output.",
  ["inputs", "fault_sequences", "histories"], "all described objects, all sinks (in memory, buffered stream, short writes), all fault points",
  "Tests write to a vector once and never inject faults.",
  ["src/write/util.rs", "src/write/mod.rs", "src/write/elf/writer.rs", "src/write/coff/writer.rs", "src/write/macho/encoder.rs"],
  [("WritableBuffer implementations", "src/write/util.rs Vec<u8>, StreamingBuffer"), ("write_stream/emit", "src/write/mod.rs")],
  ["Object::write, emit, write_stream; StreamingBuffer"])

p("C21", "String tables resolve every identifier to its string",
  "For every set of strings added to a string table, in any order and with any duplicates and shared suffixes, every identifier resolves to an offset at which the written table holds exactly that string followed by a terminator. The table size reported equals the bytes written, and identical strings share one identifier.",
  ["inputs", "histories"], "all sets and orders of byte strings (including empty, prefixes, suffixes and repeats) and base offsets",
  "Unit tests add a handful of strings.",
  ["src/write/string.rs", "src/write/elf/writer.rs", "src/write/coff/writer.rs"],
  [("suffix sort and merge", "src/write/string.rs StringTable::write")],
  ["write::StringTable and the string tables of written files"])

p("C22", "The low-level ELF writer emits exactly what it is told",
  "For every valid sequence of calls to the low-level ELF writer and encoder (one- or two-phase; both classes and byte orders), every header, section header, program header, symbol, extended index, relocation, dynamic entry, version record, hash table, section group and attribute comes out at the reserved offset with exactly the given values and decodes back to them. Generated hash tables find every symbol, and counts beyond the 16-bit limits use the extended numbering correctly.",
  ["inputs", "histories"], "all valid reservation/write sequences and field values",
  "A few tests check single features of the writer.",
  ["src/write/elf/writer.rs", "src/write/elf/encoder.rs"],
  [("reserve/write pairing", "src/write/elf/writer.rs"), ("record encoders", "src/write/elf/encoder.rs")],
  ["Writer output bytes"])

p("C23", "The low-level PE and COFF writers emit exactly what they are told",
  "For every valid sequence of calls to the PE and COFF writers, headers, section tables, data directories, base relocation blocks, symbols, auxiliary records, relocations (including overflow counts) and string tables come out with exactly the given values at the reserved, correctly aligned positions, and read back to them. The image, header, code and data sizes, section counts and padding are those the format defines for what was reserved.",
  ["inputs", "histories"], "all valid call sequences, PE32 and PE32+, all alignments and section sets",
  "Tests write one minimal image.",
  ["src/write/pe.rs", "src/write/coff/writer.rs"],
  [("virtual/file layout", "src/write/pe.rs reserve_*"), ("base relocation blocks", "src/write/pe.rs add_reloc/write_relocs"), ("symbol/aux numbering", "src/write/coff/writer.rs")],
  ["Writer output bytes"])

p("C24", "Reading an ELF file into the builder and writing it loses nothing",
  "For every ELF file the builder accepts, writing it back without edits yields a file with the same header fields, program headers, sections, symbols, dynamic entries, symbol versions in use, relocations, notes and attributes, with every cross reference to the corresponding item; hash tables find every symbol. (String tables, symbol order and the headers of symbol and string tables may be made anew, versions no symbol uses may go, and bytes outside sections aren't kept.) Reading that output and writing it again loses nothing either.",
  ["inputs"], "all ELF files the builder accepts, both classes and byte orders, relocatable, executable and shared",
  "Rewrite tests need test files that are absent here; nothing runs.",
  ["src/build/elf.rs", "src/build/table.rs", "src/build/bytes.rs", "src/write/elf/writer.rs"],
  [("read and write", "src/build/elf.rs Builder::read/write"), ("id tables", "src/build/table.rs")],
  ["Builder::read then write, compared field by field"])

p("C25", "Edits through the ELF builder change only what was asked",
  "After any sequence of builder or rewriter edits (deleting or renaming sections and symbols, adding sections, symbols, segments, run paths, needed libraries, interpreters, moving sections), the output parses, contains exactly the edited content, has no dangling or shifted reference, keeps loadable data at addresses consistent with its program headers, and everything not edited is unchanged.",
  ["inputs", "histories"], "all accepted ELF files and all edit sequences offered by the builder and the rewriter",
  "Rewrite tests need test files that are absent here; nothing runs.",
  ["src/build/elf.rs", "src/build/table.rs", "crates/rewrite/src/elf.rs", "crates/rewrite/src/rewriter.rs"],
  [("orphan deletion", "src/build/elf.rs delete_orphans"), ("section moves", "src/build/elf.rs, crates/rewrite/src/elf.rs"), ("hash rebuild", "src/build/elf.rs")],
  ["edited output, compared with a model of the edit"])

p("C26", "Mach-O building and encoding preserve content and honour edits",
  "For every Mach-O file the builder accepts, writing it back preserves its header, every load command, segment, section, symbol and relocation, and the data that load commands and sections refer to (data that nothing refers to is not kept). Edits (deleting, adding, renaming or changing symbols, sections, segments, commands, dylib references and the file's own identity) change exactly those things and what refers to them, and all indices, offsets, sizes and addresses in the output are valid and agree. A file or an edit that can't be written is refused with an error. Values given to the low-level encoder come out exactly as given in both widths and byte orders.",
  ["inputs", "histories"], "all accepted Mach-O files, all edit sequences and all encoder values",
  "Rewrite tests need test files that are absent here; nothing runs.",
  ["src/build/macho.rs", "src/write/macho/encoder.rs", "crates/rewrite/src/macho.rs"],
  [("load command rewriting", "src/build/macho.rs"), ("encoders", "src/write/macho/encoder.rs")],
  ["Builder output compared with the input and a model of the edit"])

p("C27", "Requests a format cannot represent are refused, never truncated",
  "When a number or a name given to write::Object, to the ELF or Mach-O builder, to a string table, or to a low-level writer function that returns a Result (offset, size, count, index, addend, name length, alignment, symbol value, relocation field, file length) does not fit the target format's field, writing returns an error. It never panics, and never silently writes a truncated or wrapped value: everything that is written reads back as exactly what was asked for, unless the layout of the file decides it. (Encoder functions that are documented to perform no overflow check, and parts of a description that a format has no notion of at all, are outside of this.)",
  ["inputs", "configurations"], "all boundary and out-of-range values for each field of each format",
  "Tests never write out-of-range values.",
  ["src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs", "src/write/elf/writer.rs", "src/write/coff/writer.rs", "src/write/pe.rs", "src/write/string.rs", "src/build/elf.rs", "src/build/macho.rs"],
  [("range checks", "try_into/Error paths in src/write/** and src/build/**")],
  ["write result at field boundaries"])

p("C28", "Names of constants and flags agree with their values",
  "For every constant, converting its value to a name and looking that name up give back the same constant, formatting a flag set lists exactly the bits that are set without losing unknown bits, and typed constants preserve every underlying value. Names are unambiguous for the architecture or operating system they are asked about.",
  ["inputs"], "all values of every named constant type and flag type",
  "Tests cover a few constants.",
  ["src/constants.rs", "src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs"],
  [("name tables", "src/constants.rs macros, constants in src/{elf,macho,pe,xcoff}.rs")],
  ["ConstantNames, Debug/flag formatting"])

p("C29", "What is read and written does not depend on the host",
  "The guarantees of this crate hold on hosts with 32-bit pointers and on hosts with big-endian memory as they do on 64-bit little-endian ones: reading the same bytes gives the same values and the same errors, writing the same description gives the same bytes, and nothing panics or overflows there that doesn't elsewhere. A 64-bit count, offset, size or index of a file is never cut down to the host's pointer size; at most, what is too large for the host's memory is refused.",
  ["inputs", "configurations"], "all files and descriptions, times the pointer sizes and byte orders of hosts",
  "Tests run on the build host only.",
  ["src/read/util.rs", "src/read/read_ref.rs", "src/read/archive.rs", "src/read/elf/relocation.rs", "src/read/macho/exports_trie.rs", "src/read/macho/section.rs", "src/read/xcoff/symbol.rs", "src/build/macho.rs", "src/write/mod.rs", "src/endian.rs", "src/pod.rs"],
  [("conversions to usize", "as usize, try_into in src/read/** and src/build/**"), ("byte order", "src/endian.rs")],
  ["walk transcripts and written bytes on other hosts, compared with those on this one"])

p("C30", "Optional features add abilities and change nothing else",
  "A build with only some of the cargo features (file formats, read, write or builder support, std, compression) handles what its features cover exactly as a build with all of them does: the same file kinds, values, errors and relocations are read, the same bytes are written and the same files are rebuilt. What is outside its features is refused with an error and never mistaken for something else. Without the compression feature, data which isn't compressed is still available, and compressed data is refused.",
  ["inputs", "configurations"], "all files and descriptions, times the sets of features",
  "Tests are built with one set of features (the default ones and those the test needs), so code for the others is at most compiled.",
  ["Cargo.toml", "src/lib.rs", "src/read/mod.rs", "src/read/any.rs", "src/write/mod.rs", "src/build/mod.rs", "src/read/elf/file.rs", "src/read/read_cache.rs", "src/common.rs"],
  [("conditional compilation", "cfg(feature = ..) throughout src"), ("maps without std", "Map in src/read/mod.rs, src/write/mod.rs, src/read/read_cache.rs")],
  ["FileKind::parse_at, walk transcripts, written bytes, rebuilt bytes of each build"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
