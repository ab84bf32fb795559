#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Sector reordering is a lossless permutation of every track",
  "Converting a 143,360-byte image between DOS order, ProDOS order and physical order moves every 256-byte sector, unchanged and within its own track, to the position the documented interleave tables give it, and converting back restores the original image byte for byte. The input image itself is never modified. An image of any other size, or an order that is not a permutation of 0..15, is refused with an error.",
  ["inputs", "configurations"], "every image content (all 143,360 bytes), every pair of orders, every 16-entry order vector",
  "The tests only reorder one fixed disk image on the way to reading it and never compare bytes; no test covers ProDOS order, invalid orders or wrong sizes.",
  ["disk/open.go", "disk/disk.go", "disk/marshal.go"],
  [("Swizzle", "disk/open.go"), ("validateOrder", "disk/open.go"), ("LogicalToPhysicalByName / PhysicalToLogicalByName", "disk/disk.go")],
  observe=["disk.Swizzle result", "the interleave tables by name"])

p("C02", "Opening an image and writing it back reproduces it exactly",
  "Opening a floppy image in DOS or ProDOS order with any of the three disk systems and writing it back unchanged yields the original file byte for byte, and the disk system sees each sector at its own logical position. When the disk system changes one sector in memory, exactly the 256 bytes of that sector change in the written file. Images that are not floppy-sized are written back verbatim.",
  ["inputs", "configurations"], "every image content, every combination of file order (do, po) and disk system (dos3, nakedos, prodos), every sector changed",
  "No test writes an image back at all.",
  ["disk/open.go", "helpers/helpers.go", "dos3/dos3.go", "prodos/prodos.go", "supermon/supermon.go"],
  [("OpenImage / openDoOrPo", "disk/open.go"), ("WriteBack", "disk/open.go"), ("DiskOrder of each system", "dos3, prodos, supermon")],
  observe=["file written by disk.WriteBack", "Operator.GetBytes"])

p("C03", "Image order and system selection follow flags, extension and content",
  "A floppy image opened with an explicit order and system is opened with exactly those; with automatic order, .po (any case) means ProDOS order, .do means DOS order, and .dsk or no extension tries DOS order before ProDOS order; with automatic system, the first registered system that recognises the image in that order is used and the order reported is the one that matched. Unknown systems, orders or extensions, 13-sector images, other sizes, and .hdv images that are not whole 512-byte blocks, exceed 32 MiB or are asked for in another order or system, are errors.",
  ["inputs", "configurations"], "every extension of up to four letters in any case, every order and system flag, every recognition outcome of the three systems, image sizes around the limits",
  "Tests open a single .dsk file with automatic order and one registered system.",
  ["disk/open.go"],
  [("OpenImage", "disk/open.go"), ("openDoOrPo", "disk/open.go"), ("openHDV", "disk/open.go"), ("OrderFromFilename", "disk/open.go")],
  observe=["disk.OpenImage results", "disk.OrderFromFilename"])

p("C04", "Sector and block access touches exactly the addressed bytes",
  "Reading a sector (or block) returns a private copy of exactly the 256 (or 512) bytes at its address, and writing one changes exactly those bytes and nothing else in the image. A sector or block that does not lie wholly inside the image, or sector data that is not 256 bytes long, is refused with an error and leaves the image unchanged.",
  ["inputs"], "every track, sector and block number, every image length around the limits, every content",
  "Tests only touch in-range sectors of complete images and never look at neighbouring bytes.",
  ["disk/marshal.go"],
  [("ReadSector / WriteSector", "disk/marshal.go"), ("UnmarshalLogicalSector / MarshalLogicalSector", "disk/marshal.go"), ("UnmarshalBlock / MarshalBlock", "disk/marshal.go")],
  observe=["disk.ReadSector", "disk.WriteSector", "disk.MarshalBlock", "disk.UnmarshalBlock"])

p("C05", "DOS 3.3 structures decode to documented fields and re-encode losslessly",
  "Decoding any 256 bytes as a DOS 3.3 VTOC, catalog sector or track/sector list and encoding it again gives the same 256 bytes, and every field holds the bytes at its documented offset in little-endian order; encoding any structure and decoding it gives the structure back. Input of any other length is refused. A sector is reported free exactly when its bit in the track's free-sector bitmap is set, and a VTOC is accepted as valid exactly when its release, direction, track and sector counts, sector size, list size, volume and unused bitmap bytes have their DOS 3.3 values.",
  ["inputs"], "every 256-byte sector, every structure value, every sector number",
  "The round-trip tests try one random sector per run and would miss swapped or overlapping fields that cancel out.",
  ["dos3/dos3.go"],
  [("VTOC/CatalogSector/TrackSectorList ToSector and FromSector", "dos3/dos3.go"), ("FileDesc ToBytes and FromBytes", "dos3/dos3.go"), ("TrackFreeSectors.IsFree", "dos3/dos3.go"), ("VTOC.Validate", "dos3/dos3.go")])

p("C06", "DOS 3.3 catalog lists exactly the live files",
  "Listing a DOS 3.3 disk follows the whole catalog chain from the VTOC and returns, in catalog order, exactly the entries that are neither deleted nor unused. Each is described by its own entry: name with the high bit removed and trailing spaces trimmed, sector count, locked flag from the top bit of the type byte, and the type the rest of that byte stands for. Deleted entries are reported separately, without the last name character.",
  ["inputs", "histories"], "every combination of entry states, names, types and counts, any catalog chain layout",
  "One fixed disk is listed; type, size and lock status are explicitly not tested (TODO in the test).",
  ["dos3/dos3.go"],
  [("ReadCatalog / readCatalogSectors", "dos3/dos3.go"), ("FileDesc.Status, FilenameString, descriptor", "dos3/dos3.go"), ("operator.Catalog", "dos3/dos3.go")],
  observe=["Operator.Catalog", "dos3.ReadCatalog"])

p("C07", "A damaged DOS 3.3 catalog is an error, never a hang or a crash",
  "For every image content, recognising or listing a DOS 3.3 disk terminates without crashing. An invalid VTOC, a catalog chain that leaves the disk (track beyond 34 or sector beyond the disk's sectors per track), or one that returns to a catalog sector already read, is reported as an error.",
  ["inputs"], "every image content",
  "Tests list one healthy disk.",
  ["dos3/dos3.go", "disk/marshal.go"],
  [("readCatalogSectors chain checks", "dos3/dos3.go"), ("VTOC.Validate", "dos3/dos3.go"), ("SeemsToMatch", "dos3/dos3.go")])

p("C08", "DOS 3.3 files read back the bytes their track/sector lists name",
  "Reading a DOS 3.3 file returns the contents of the sectors named by its chained track/sector lists, in order, with a missing (0,0) sector read as 256 zero bytes and the list ending at its last named sector. A text file loses its trailing zero bytes only; an Applesoft or Integer program is exactly the length given in its first two bytes, following them; a binary file has its start address in the first two bytes, its length in the next two, and exactly that many bytes after them. The name, type and reported length match the catalog entry and the data returned; a name that is not in the catalog is an error.",
  ["inputs"], "every sector content, list layout (holes, several chained lists, up to the whole disk), recorded length and start address",
  "No test reads a DOS 3.3 file.",
  ["dos3/dos3.go"],
  [("FileDesc.Contents", "dos3/dos3.go"), ("operator.GetFile", "dos3/dos3.go"), ("fileForFilename", "dos3/dos3.go")],
  observe=["Operator.GetFile"])

p("C09", "A damaged DOS 3.3 file is an error, never a crash or invented data",
  "For every image content, reading a DOS 3.3 file terminates without crashing. A track/sector list chain that loops, a list or data sector outside the disk image, or a recorded length larger than the data the file really holds, is reported as an error, and a file that holds no data is never padded out with bytes it does not contain.",
  ["inputs"], "every track/sector list, data sector and recorded length",
  "No test reads a DOS 3.3 file, healthy or damaged.",
  ["dos3/dos3.go"],
  [("FileDesc.Contents", "dos3/dos3.go"), ("operator.GetFile", "dos3/dos3.go")],
  observe=["Operator.GetFile"])

p("C10", "ProDOS structures decode to documented fields and re-encode losslessly",
  "Decoding any 512 bytes as a ProDOS volume-directory key block, volume-directory block, subdirectory key block or subdirectory block and encoding it again gives the same 512 bytes, and every field of headers and file entries holds the bytes at its documented offset in little-endian order. Encoding any such structure and decoding it gives the structure back.",
  ["inputs"], "every 512-byte block and every structure value",
  "The round-trip tests try one random block per run and cannot see swapped or misplaced fields that cancel out.",
  ["prodos/prodos.go"],
  [("ToBlock / FromBlock of the four block types", "prodos/prodos.go"), ("toBytes / fromBytes of headers, file entries, date/times", "prodos/prodos.go")])

p("C11", "ProDOS catalog lists exactly the live entries of each directory",
  "Listing a ProDOS volume returns, in directory order across all chained directory blocks, exactly the entries that are not deleted; listing a subdirectory by its path (parent/child at any depth) returns exactly that subdirectory's entries. Each entry is described by its own name, blocks used, 24-bit length and file type. A path that names no subdirectory is an error.",
  ["inputs", "histories"], "every combination of entry states, names, lengths and types, directory chains and nesting",
  "No test lists a ProDOS disk.",
  ["prodos/prodos.go"],
  [("readVolume / readSubdirectory", "prodos/prodos.go"), ("parentDirName", "prodos/prodos.go"), ("operator.Catalog", "prodos/prodos.go"), ("FileDescriptor.descriptor", "prodos/prodos.go")],
  observe=["Operator.Catalog"])

p("C12", "A damaged ProDOS directory is an error, never a hang or a crash",
  "For every image content and size, recognising or listing a ProDOS volume terminates without crashing. A directory block chain that loops or leaves the device, a subdirectory reached twice, or a parent pointer that loops or names no directory, is reported as an error.",
  ["inputs"], "every image content",
  "No test lists a ProDOS disk, healthy or damaged.",
  ["prodos/prodos.go", "disk/marshal.go"],
  [("readVolume / readSubdirectory chain following", "prodos/prodos.go"), ("parentDirName recursion", "prodos/prodos.go"), ("SeemsToMatch", "prodos/prodos.go")])

p("C13", "ProDOS bitmap and index entries are independent and complete",
  "A new volume bitmap for any number of blocks has every one of those blocks free; marking one block used or free changes the state of that block alone, and writing the bitmap puts each block's bit at the documented place (most significant bit first, 4096 blocks per bitmap block). Setting an index-block entry makes reading that entry return the value and leaves the other 255 entries alone, low bytes in the first half, high bytes in the second.",
  ["inputs", "histories"], "every volume size, every block number, every prior bitmap, every index entry and value",
  "No test touches the bitmap or index blocks.",
  ["prodos/prodos.go"],
  [("NewVolumeBitMap, mark, IsFree, Write", "prodos/prodos.go"), ("IndexBlock.Get / Set", "prodos/prodos.go")])

p("C14", "A NakedOS put stores the file and disturbs no other",
  "After a successful put of any file other than the symbol table files 3 and 4, getting the file (by number or symbol, also after re-opening the disk) returns the data padded with zeros to whole sectors, and the sectors it occupies were free or its own before. Every byte of every other file, of the reserved system sectors and of free space not allocated is unchanged, apart from the sector map and, when a symbol was added, the symbol table files. The put reports whether the file already existed.",
  ["inputs", "histories"], "every file content and length, every sector map state, every file number, with and without overwrite",
  "One file is put on one disk and only its catalog name is checked; contents, neighbours and persistence are not.",
  ["supermon/supermon.go"],
  [("SectorMap.WriteFile", "supermon/supermon.go"), ("SectorMap.Persist / LoadSectorMap", "supermon/supermon.go"), ("Operator.PutFile / GetFile", "supermon/supermon.go")],
  state=[("SectorMap", "owner of each of the 560 sectors", "supermon/supermon.go")],
  observe=["Operator.GetBytes", "Operator.GetFile", "re-opened image"])

p("C15", "A refused NakedOS put changes nothing",
  "When a put is refused - the file exists and overwriting was not asked for, there is not enough free space even counting the sectors of the file being replaced, the name is not a valid number or symbol, the type is not binary, the recorded length differs from the data, the file is empty, the symbol table has no room for a new symbol, or no file number is left - the disk image is unchanged byte for byte and every file still reads as before. A put that fits exactly is accepted.",
  ["inputs", "histories"], "every sector map state, file number, length and name",
  "No refused put is tested.",
  ["supermon/supermon.go", "errors/errors.go"],
  [("SectorMap.WriteFile checks before writing", "supermon/supermon.go"), ("Operator.PutFile validation", "supermon/supermon.go")])

p("C16", "A NakedOS delete frees exactly the named file",
  "Deleting a file by number or symbol frees exactly the sectors that file owned, in memory and on the re-opened disk, and reports whether it had any. No other file's sectors, contents or symbol change; when it was named by symbol, that symbol disappears. Deleting a name that does not exist reports an error and changes nothing.",
  ["inputs", "histories"], "every sector map state and file number",
  "No test deletes anything.",
  ["supermon/supermon.go"],
  [("SectorMap.Delete", "supermon/supermon.go"), ("Operator.Delete", "supermon/supermon.go"), ("SymbolTable.DeleteSymbol", "supermon/supermon.go")])

p("C17", "A Super-Mon symbol name is stored exactly or refused",
  "Writing a symbol table and reading it back returns every symbol's name upper-cased but otherwise exactly as given, with its address and link. A non-empty name that cannot be stored - shorter than 3 or longer than 9 characters, containing anything but ASCII letters and digits, or needing more than 48 bits - is refused with an error, and every other name is accepted. An address of zero marks an unused entry and a link outside the table is an error.",
  ["inputs"], "every ASCII name of up to 10 characters, every address and link",
  "Eleven fixed names are tried; characters other than letters and digits are not.",
  ["supermon/supermon.go"],
  [("encodeSymbol / decodeSymbol", "supermon/supermon.go"), ("ReadSymbolTable / WriteSymbolTable", "supermon/supermon.go")],
  observe=["SectorMap.WriteSymbolTable then ReadSymbolTable"])

p("C18", "Symbol table edits keep every hash chain intact",
  "Adding or deleting a symbol in a well-formed table leaves it well formed: every live symbol is on exactly one chain of symbols with the same address hash, no link leads to an unused entry, and the table can be written and read back. All other symbols keep their names and addresses, an added name resolves to its new address and appears once, and a deleted name no longer resolves. Adding at address zero or to a full table is an error that changes nothing.",
  ["inputs", "histories"], "every well-formed table (chains, gaps, any position), every name and address",
  "No test edits a table except one put on a fixed disk.",
  ["supermon/supermon.go"],
  [("SymbolTable.AddSymbol", "supermon/supermon.go"), ("SymbolTable.DeleteSymbol", "supermon/supermon.go"), ("addrHash", "supermon/supermon.go")],
  state=[("SymbolTable", "819 entries with address, name and chain link", "supermon/supermon.go")])

p("C19", "NakedOS names resolve to one file consistently",
  "A name of the form DFxx or xx (hexadecimal, any case, 01..FD) means file xx; any other name means the file whose symbol matches it without regard to case and points into DF01..DFFD, or is not found. A compound DFxx:NAME means file xx together with symbol NAME, and more than one colon, a bad number before the colon, or a file number after it, is an error. Catalog names use the file's symbol when it has one and DFxx otherwise, and resolve back to the same file (unless the symbol itself reads as a file number). Likewise a symbol argument is XXXX (an address), NAME (a known or new storable symbol; a known one wins over an address) or XXXX:NAME, anything else being an error.",
  ["inputs"], "every name of bounded length, every file number, every symbol table",
  "Only two fixed names are resolved in tests.",
  ["supermon/supermon.go"],
  [("parseAddressFilename, FileForName, FilesForCompoundName, ParseCompoundSymbol", "supermon/supermon.go"), ("NameForFile / FullnameForFile / Catalog", "supermon/supermon.go")])

p("C20", "Any bytes open as NakedOS without a crash, and only if the map is sane",
  "For every image content, recognising and opening a NakedOS disk, listing it and reading any file terminates without crashing. The image is accepted exactly when track 0 sectors 0-B are marked reserved and no sector map entry is zero; a missing or damaged symbol table only makes symbols unavailable.",
  ["inputs"], "every sector map and symbol table content",
  "Tests open one healthy disk.",
  ["supermon/supermon.go"],
  [("LoadSectorMap / Verify", "supermon/supermon.go"), ("ReadSymbolTable validation", "supermon/supermon.go"), ("OperatorFactory.Operator / SeemsToMatch", "supermon/supermon.go")])

p("C21", "An Applesoft program lists every line with its number and tokens",
  "Decoding a well-formed tokenised Applesoft program at its load address returns its lines in order, each with its 16-bit line number and its bytes up to the terminating zero, whether or not the two-byte file length precedes it. The listing prints each line as its number and a space, then its characters, with every token byte spelled out as its keyword surrounded by spaces.",
  ["inputs"], "every program of bounded size, every load address, every token byte",
  "One fixed 262-byte program is decoded.",
  ["basic/applesoft/applesoft.go"],
  [("Decode", "basic/applesoft/applesoft.go"), ("Line.String / Listing.String", "basic/applesoft/applesoft.go"), ("TokensByCode", "basic/applesoft/applesoft.go")])

p("C22", "Any bytes decode as Applesoft to a listing or an error",
  "For every byte sequence and every load address, decoding it as an Applesoft program terminates without crashing, and returns either a listing or an error. A next-line address outside the input, one that leads back to a line already decoded, a line that runs past the end of the input, and a byte of $EB or above that is no token are errors.",
  ["inputs"], "every input of bounded size, every load address",
  "One well-formed program is decoded.",
  ["basic/applesoft/applesoft.go"],
  [("Decode bounds checks", "basic/applesoft/applesoft.go")])

p("C23", "Any bytes decode as Integer BASIC to the right listing or an error",
  "For every byte sequence, decoding it as Integer BASIC and printing the listing terminates without crashing. A well-formed program (length byte, line number, tokens, $01 terminator, with or without the two-byte file length) returns its lines in order with their numbers and token bytes; a line whose length byte is too small, runs past the input or does not end in $01 is an error. A line prints as its number right-aligned in five columns, each token as its keyword (with a space after it if longer than one character), each numeric constant in decimal, and REM text and other characters with the high bit cleared.",
  ["inputs"], "every input of bounded size",
  "The only Integer BASIC test is skipped.",
  ["basic/integer/integer.go"],
  [("Decode", "basic/integer/integer.go"), ("Line.String", "basic/integer/integer.go")])

p("C24", "Control codes are escaped and nothing else is altered",
  "Escaping a listing replaces each control character other than newline and tab by one chevron code (ctrl-A to ctrl-Z for 1..26, NUL, FS, GS, RS, US for the named ones) and leaves every other byte, including newline, tab and non-ASCII bytes, exactly as it was and in order.",
  ["inputs"], "every string of bounded length over all byte values",
  "One listing with one control character is escaped.",
  ["basic/basic.go", "basic/integer/integer.go"],
  [("ChevronControlCodes", "basic/basic.go"), ("ChevronControlCodes", "basic/integer/integer.go")])

p("C25", "Existing files are never overwritten without force",
  "Writing an output file without force succeeds only when no file of that name exists; if it exists, or its existence cannot be determined, an error is returned and the file keeps its contents. With force, or when the file is new, the file afterwards holds exactly the given bytes; the name - means standard output and touches no file. The reorder command obeys this for its new-image argument and replaces the input only when no new image is named.",
  ["inputs", "fault_sequences"], "every file content, every existence outcome of the file system, with and without force",
  "No test writes an output file.",
  ["helpers/helpers.go", "cmd/reorder.go"],
  [("WriteOutput", "helpers/helpers.go"), ("ReorderCmd.Run", "cmd/reorder.go")])

p("C26", "A command that fails leaves the disk image file untouched",
  "When put, rm, mkhello or reorder reports an error - for example because the image does not open, the source file is missing, the name or file type is bad, the file exists, the disk is full, or the operation is not supported by that disk system - the image file on the host keeps its contents byte for byte. When put or rm succeeds, the image file holds the changed disk in the order it was opened in, and re-opening it shows the change; rm of a file that is not there is an error, or with -f a success that changes nothing.",
  ["inputs", "histories", "fault_sequences"], "every disk content of the modelled disks, command arguments, and failing reads or writes",
  "No test runs a command.",
  ["cmd/put.go", "cmd/delete.go", "cmd/nakedos.go", "cmd/reorder.go", "disk/open.go"],
  [("Run of each command: WriteBack only after success", "cmd/*.go")])

p("C27", "A Standard Delivery disk loads every page of the binary where it belongs",
  "mksd accepts a binary exactly when its load address is page aligned, its start lies inside it, it ends at or below $C000 and its page table fits the boot sector; otherwise it reports an error and writes nothing. The image it writes holds the binary's zero-padded pages in the order the boot loader reads sectors (track by track, physical sectors 0,2,..,14,1,3,..,15, after the boot sector), a boot sector whose table names the target page of each and ends with $C0, and a jump to the start address, all stored in the requested or guessed sector order; every other byte is zero.",
  ["inputs"], "every binary content and length up to the limits, every load and start address, both orders",
  "No test runs mksd.",
  ["cmd/sd.go"],
  [("SDCmd.Run", "cmd/sd.go")],
  observe=["the image file written"])

p("C28", "mkhello writes a loader for exactly the requested file",
  "On a NakedOS disk with a symbol table, mkhello replaces file DF01 by a one-sector program that loads the requested file number at the requested page and jumps to the start address (the load address by default), named FHELLO, and changes no other file's contents. An unaligned load address, a start below it, a name that is not a file, or a disk that is not NakedOS, is an error.",
  ["inputs"], "every load address, start address and file number or symbol",
  "No test runs mkhello.",
  ["cmd/nakedos.go"],
  [("MkHelloCmd.Run", "cmd/nakedos.go")])

p("C29", "reorder picks the orders its flags and file names say",
  "reorder converts from the given order to the given new order; if only one is given the other is its opposite; if neither is given they come from the file extensions (.dsk and .do are DOS order, .po ProDOS order, in any letter case), the opposite being assumed for the one that has no known extension. Equal orders and names that decide nothing are errors. The image written is the input converted between exactly those orders.",
  ["inputs", "configurations"], "every combination of order flags and every pair of file names with bounded extensions",
  "No test runs reorder.",
  ["cmd/reorder.go", "disk/open.go"],
  [("getOrders / oppositeOrder", "cmd/reorder.go"), ("OrderFromFilename", "disk/open.go")])

p("C30", "File type names and codes agree both ways",
  "Every listed file type is found by its full name, and each one- or three-letter name finds a type that carries it, codes 00-FF being the ProDOS type bytes; a name no type carries is an error. Every code prints as its own description and names, and an unlisted code prints as unknown. The short listing is exactly the full listing without the extra types. The filetypes command prints one line per type of the short listing, or with --all of the full one.",
  ["inputs"], "every file type code, every name of bounded length",
  "No test covers file types.",
  ["types/filetype.go"],
  [("init tables", "types/filetype.go"), ("FiletypeForName / String / FiletypeInfos", "types/filetype.go")])

p("C31", "dump and decode print exactly the file",
  "dump writes the data of the named file to standard output and nothing else, byte for byte, for DOS 3.3 and NakedOS disks in either order; applesoft decode prints the listing of the program read from a file or standard input at the given location, with control codes escaped unless raw output is asked for. When the image does not open, the file does not exist or the program does not decode, an error is returned and nothing is printed. No file changes.",
  ["inputs"], "every file content of the modelled disks, every load address, every program of bounded size",
  "The one script test that runs a command cannot be built here; no other test does.",
  ["cmd/dump.go", "cmd/applesoft.go"],
  [("DumpCmd.Run", "cmd/dump.go"), ("DecodeCmd.Run", "cmd/applesoft.go")])

p("C32", "ls prints one line per catalog entry",
  "ls prints the name of each catalog entry on its own line, in catalog order: the full name (DFxx:SYMBOL) for NakedOS files that have one unless short names are asked for, otherwise the name. A directory argument lists that ProDOS directory; an unknown directory, or any directory on a system without directories, is an error, as is an image that does not open or whose catalog cannot be read, and then nothing is printed. No file changes.",
  ["inputs", "configurations"], "every content of the modelled disks, orders, systems and flags",
  "The one script test that runs a command cannot be built here; no other test does.",
  ["cmd/catalog.go"],
  [("LsCmd.Run", "cmd/catalog.go")])

p("C33", "Refusals say why",
  "A NakedOS put that does not fit is reported as out of space, one that would replace an existing file without overwrite as file exists, and a name that is no file as file not found when it is read, deleted or resolved; each of these kinds is recognised by its own predicate, no other error (and no success) is recognised as any of them, and the message is the one given.",
  ["inputs"], "every ownership of three open sectors, file sizes, message texts",
  "The tests never look at the kind of an error.",
  ["errors/errors.go", "supermon/supermon.go"],
  [("OutOfSpacef, FileExistsf, FileNotFoundf and their predicates", "errors/errors.go"), ("SectorMap.WriteFile, SymbolTable.FileForName", "supermon/supermon.go")])

p("C34", "Addresses on the command line mean what they say in any base",
  "An address flag given in decimal, hexadecimal (0x), octal or binary sets exactly that 16-bit value; anything else, or a value above 65535, is an error.",
  ["inputs"], "every command line",
  "No test parses a command line.",
  ["main.go"],
  [("hexUint16Mapper.Decode", "main.go")])

p("C35", "ProDOS validation reports exactly the irregular fields",
  "Validating a ProDOS directory block reports one error for each irregular field and none for a regular block: a key block whose previous-block pointer is not zero, a subdirectory header whose byte after the name is not $75, a trailing byte that is not zero, and every creation or modification time (of the header and of each entry) whose hour is above 23 or minute above 59, the minute being stored before the hour.",
  ["inputs"], "every block content",
  "No test calls a Validate method of the ProDOS structures.",
  ["prodos/prodos.go"],
  [("DateTime.Validate and the Validate methods of the block types", "prodos/prodos.go")])

p("C36", "Debug output changes nothing else",
  "With any debug level, ls, dump, put and rm print to standard output, write to files and return the same results as without: debug text goes to standard error only, and producing it never fails or crashes.",
  ["inputs", "configurations"], "debug levels 1 to 3, every content of the modelled disks",
  "No test turns debugging on.",
  ["main.go", "disk/open.go", "prodos/prodos.go", "cmd/catalog.go"],
  [("debug messages of openDoOrPo", "disk/open.go"), ("debug messages of readVolume", "prodos/prodos.go"), ("LsCmd.Run", "cmd/catalog.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
