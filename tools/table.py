prop(
    "C01", "A data range is a window: it never exposes bytes outside it",
    "Reading, seeking and telling on a data range behave exactly as on a file "
    "that holds only the bytes of the window, for every window offset and "
    "size, whatever was done before. No read returns a byte from before the "
    "window or beyond its end, and an invalid seek or a negative size or "
    "offset is refused without moving the position.",
    "every window, underlying file size and sequence of operations with any "
    "arguments",
    "The unit tests run a few reads and seeks on one window of one file.",
    ["dtformats/data_range.py"],
    "position arithmetic and clipping in read, seek, get_offset, get_size",
    "All sequences of 2 (thorough: 3) operations with any arguments from -3 to "
    "6 on a file of 4 symbolic bytes with a symbolic window.",
    ["inputs", "histories"])
prop(
    "C02", "Structures are read completely and at their offset, or not at all",
    "Reading data or a structure at an offset returns precisely the bytes "
    "there, and the decoded structure's attributes are the values of those "
    "bytes. Whenever the bytes are missing or cannot be decoded the reader "
    "gets a parse error, never a partial structure or another exception.",
    "every file content, offset and size within the bounds",
    "The tests read two fixed structures from two fixed byte strings.",
    ["dtformats/data_format.py"],
    "_ReadData, _ReadStructureFromFileObject, _ReadStructureFromByteStream",
    "Fixed-size, counted and conditional structures in files of up to 9 "
    "symbolic bytes; raw data at any offset and of any size from -2^64 to 2^65, "
    "structures at any offset around the ends.")
prop(
    "C03", "Values are formatted losslessly and labelled exactly",
    "Every formatter used for output renders each value in its documented form "
    "(decimal, hexadecimal of a fixed width, timestamps, addresses, "
    "identifiers, escaped text, hexadecimal dumps), so that the text identifies "
    "the value. A hexadecimal dump shows every byte at its offset, folding "
    "only rows that are repeated. Output writers write the text they are given.",
    "every value of each formatter's domain; dumps of every content of the "
    "bounded sizes",
    "The tests format one or two values each.",
    ["dtformats/data_format.py", "dtformats/output_writers.py"],
    "_Format* methods, _FormatDataInHexadecimal, output writers",
    "Any 8 to 64-bit value; byte strings and dumps up to 50 symbolic bytes.")
prop(
    "C04", "Files are opened, closed and owned correctly in every history",
    "Opening an opened file and closing a closed file are refused, a failed "
    "read leaves the file closed and reusable, a file object passed in is never "
    "closed by the reader, and one the reader opened is closed exactly once. "
    "This holds after every sequence of opens and closes, for good and bad "
    "files.",
    "every sequence of up to 3 open and close operations (and longer "
    "ones), each on a good, malformed or too short file",
    "The tests open and close one good file once.",
    ["dtformats/data_format.py", "dtformats/data_range.py",
     "dtformats/file_system.py"],
    "BinaryDataFile.Open, ReadFileObject, Close",
    "Histories of 3 operations, and 6 with one free; file contents symbolic.", ["histories", "inputs"])
prop(
    "C05", "Debug definitions are validated: accepted if and only if well-formed",
    "A debug definition is accepted if and only if it names its structure, has "
    "no unknown key and at least one attribute, and each attribute has a "
    "distinct name, a description and a supported format; an accepted one "
    "yields exactly those attributes, in order. Anything else is refused with a "
    "parse error.",
    "every combination of absent, empty, valid and invalid keys of a "
    "definition with up to two attributes",
    "The tests read one good definition and a few bad ones.",
    ["dtformats/yaml_definitions_file.py"],
    "YAMLDebugDefinitionsFile._ReadDefinition",
    "Up to 2 attributes, symbolic choice of keys and values.",
    ["configurations"])
file_format(
    "C06", "Chrome disk cache files are decoded exactly",
    "For every cache address the file, block number, offset and size are those "
    "the format defines, and the index file, block files, their allocation "
    "bitmaps and the cache entries are decoded to exactly the values in the "
    "bytes. A directory lists the entries of each chain of the index in order, "
    "terminating on loops. Malformed files are refused with a parse error.",
    ["dtformats/chrome_cache.py", "dtformats/chrome_cache.yaml",
     "dtformats/chrome_cache.debug.yaml"],
    "CacheAddress, IndexFile, DataBlockFile, ChromeCacheParser",
    "every 32-bit address; every value of every field of the structures",
    "the tests decode one index file and one block file.",
    "any 32-bit address; headers and entries with all numbers symbolic, bitmaps "
    "with symbolic bits at word boundaries, chains of up to 3 entries.")
file_format(
    "C07", "CPIO archives are listed and extracted exactly",
    "For the four CPIO formats every file entry has the path, numbers and data "
    "the format assigns to the bytes, entries are listed in archive order until "
    "the trailer, and a lookup by path returns the entry of that path or "
    "nothing. Reading an entry's data gives exactly its bytes; malformed "
    "archives are refused with a parse error. The hasher of the cpio script "
    "gives the digest of the data of every entry that has data, by path, for "
    "each of the archives, compressed or not, that a file consists of.",
    ["dtformats/cpio.py", "dtformats/cpio.yaml",
     "dtformats/cpio.debug.yaml", "scripts/cpio.py"],
    "CPIOArchiveFile header parsing, padding, entry iteration; "
    "CPIOArchiveFileEntry.read/seek; CPIOArchiveFileHasher",
    "every archive within the bounds",
    "the tests read five small archives.",
    "up to 2 entries and a trailer, names up to 6 and data up to 8 bytes, every "
    "header field symbolic in turn, every truncation; for the hasher two "
    "archives of up to 4 entries, with stand-ins for SHA-256 and the "
    "decompressors.",
    ["inputs", "histories"])
file_format(
    "C08", "Login records (utmp, Mac OS X utmpx) are decoded exactly",
    "Every record of an utmp or utmpx file is decoded to exactly the values in "
    "its bytes - type, process, terminal, user, host, exit status, time and IP "
    "address - in file order, whatever the bytes are. Files whose size or "
    "header is malformed are refused with a parse error.",
    ["dtformats/utmp.py", "dtformats/utmp.yaml", "dtformats/utmp.debug.yaml"],
    "LinuxLibc6UtmpFile, MacOSXUtmpxFile",
    "every value of every field, every truncation",
    "the tests read one file each.",
    "up to 2 records, every field symbolic in turn, text fields with up to 4 "
    "symbolic bytes.")
file_format(
    "C09", "Windows Recycle Bin metadata ($I, INFO2) is decoded exactly",
    "Every $I file and INFO2 file is decoded to exactly the values in its "
    "bytes: sizes, deletion time, index and drive numbers and the original "
    "path, ending at the first end-of-string character. Unsupported or "
    "truncated files are refused with a parse error.",
    ["dtformats/recycle_bin.py", "dtformats/recycler.py",
     "dtformats/recycle_bin.yaml", "dtformats/recycler.yaml"],
    "RecycleBinMetadataFile, RecyclerInfo2File",
    "every value of every field, every truncation",
    "the tests read one file each.",
    "formats 1 and 2 with names up to 4 characters, INFO2 with up to 2 entries.")
prop(
    "C10", "Prefetch and Chrome cache hashes are the documented functions",
    "The three Windows Prefetch hashes and the Chrome cache key hash return "
    "the value the published algorithm defines for every path or key, as a "
    "non-negative 32-bit integer.",
    "every ASCII path and every key of the bounded lengths",
    "The tests hash one path and a few keys.",
    ["dtformats/prefetch.py", "dtformats/chrome_cache.py"],
    "CalculatePrefetchHashXP, CalculatePrefetchHashVista, "
    "CalculatePrefetchHash2008, SuperFastHash",
    "Paths of 0 to 13 (thorough 32) and keys of 0 to 17 (thorough 64) symbolic "
    "characters.")

file_format(
    "C11", "Safari binary cookies are decoded exactly",
    "Every page and record of a Safari Cookies.binarycookies file is decoded to "
    "exactly the values in its bytes: sizes, offsets, flags, expiration and "
    "creation time, and the URL, name, path and value strings found at the "
    "offsets of the record. Malformed files are refused with a parse error.",
    ["dtformats/safari_cookies.py", "dtformats/safari_cookies.yaml",
     "dtformats/safari_cookies.debug.yaml"],
    "BinaryCookiesFile", "every value of every field, every truncation",
    "the tests read one file.",
    "up to 3 pages and 2 records; every field symbolic in turn, including the "
    "64-bit floating-point times; strings with up to 3 symbolic bytes.")
file_format(
    "C12", "Time zone information files are decoded exactly",
    "A TZif file of version 1, 2 or 3 is decoded to exactly the values in its "
    "bytes: header counts, transition times, local time types, abbreviations, "
    "leap seconds and indicators of the 32-bit part, and of the 64-bit part "
    "that follows it where the version has one. Malformed files are refused "
    "with a parse error.",
    ["dtformats/tzif.py", "dtformats/tzif.yaml", "dtformats/tzif.debug.yaml"],
    "TimeZoneInformationFile", "every value of every field, every truncation",
    "the tests read one file.",
    "up to 2 transition times and types; every count and every table symbolic "
    "in turn.")
file_format(
    "C13", "CUPS IPP job files are decoded exactly",
    "Every attribute of a CUPS IPP file is decoded to the tag, name and value "
    "its bytes stand for - integers, booleans, date and time values, ASCII "
    "strings, and text in the character set the file names - up to the end of "
    "the attributes. Values that are out of bounds or cannot be decoded, "
    "unknown delimiters and truncated files are refused with a parse error.",
    ["dtformats/cups_ipp.py", "dtformats/cups_ipp.yaml",
     "dtformats/cups_ipp.debug.yaml"],
    "CupsIppFile._ReadAttributesGroup, _ReadAttribute, _ReadDateTimeValue",
    "every tag, size and value within the bounds, every truncation",
    "the tests read one file and three values.",
    "up to 3 attributes in 2 groups, every tag with values of 0 to 12 bytes, "
    "strings with up to 3 symbolic bytes, 6 character sets.")
file_format(
    "C14", "GZip members and fseventsd disk log streams are decoded exactly",
    "A gzip file is decoded member by member: header, optional fields, "
    "compressed data and the footer right behind it, whatever the flags and "
    "however little data a member holds. A fseventsd file is decoded to the "
    "path, event, flags and node of every record of every page. Malformed "
    "files are refused with a parse error.",
    ["dtformats/gzipfile.py", "dtformats/gzipfile.yaml",
     "dtformats/gzipfile.debug.yaml", "dtformats/fseventsd.py",
     "dtformats/fseventsd.yaml", "dtformats/fseventsd.debug.yaml"],
    "GZipFile._ReadMemberHeader, _ReadMemberCompressedData, "
    "_ReadMemberFooter; FseventsFile",
    "every value of every field, every truncation",
    "the tests read one file of each version.",
    "up to 2 members with 19 flag values and fixed deflate data, up to 3 pages "
    "with 2 records. The gzip library behind fseventsd (C code) is replaced by "
    "the uncompressed data itself.")

file_format(
    "C15", "Apple System Log records are decoded exactly",
    "Every record of an Apple System Log file, followed from the first record "
    "offset along the next record offsets, is decoded to exactly the values in "
    "its bytes, with the strings its references stand for, whether stored "
    "inline or at an offset, and its additional name and value pairs. "
    "Malformed files, loops included, are refused with a parse error.",
    ["dtformats/asl.py", "dtformats/asl.yaml", "dtformats/asl.debug.yaml"],
    "AppleSystemLogFile._ReadRecord, _ReadRecordString, _ReadRecordExtraField",
    "every value of every field, every truncation",
    "the tests read one file.",
    "2 records with up to 3 additional fields; every field symbolic in turn; "
    "offsets within 32 bytes of the right one and all outside of the file (all "
    "in the thorough tier); times of up to 5 bytes, as dfdatetime needs long "
    "for those that are far away.")
file_format(
    "C16", "BSM audit records are decoded exactly",
    "A Basic Security Module audit file is decoded record by record and token "
    "by token: every token type to exactly the values in its bytes, addresses "
    "and counted elements included, each token right behind the one in front "
    "of it, up to the trailer with the size the header states. Malformed files "
    "are refused with a parse error.",
    ["dtformats/bsm.py", "dtformats/bsm.yaml", "dtformats/bsm.debug.yaml"],
    "BSMEventAuditingFile._ReadRecord, _ReadToken, _ReadStrings",
    "every value of every field of every token type, every truncation",
    "the tests read one file and a few formatted values.",
    "one or two records with one token of every type next to header and "
    "trailer, counts up to 5 elements; every field symbolic in turn; event "
    "names are compared with the table of the pinned commit; times of up to 5 "
    "bytes.")
file_format(
    "C17", "systemd journals are decoded exactly",
    "A systemd journal is decoded to exactly the values in its bytes: the file "
    "header of each of its versions, every entry array along the chain of "
    "arrays, every entry of every array, and the data objects of its items. "
    "Malformed files, loops included, are refused with a parse error.",
    ["dtformats/systemd.py", "dtformats/systemd.yaml",
     "dtformats/systemd.debug.yaml"],
    "SystemdJournalFile._ReadEntryObject, _ReadEntryObjectOffsets, "
    "_ReadDataObject",
    "every value of every field, every truncation",
    "the tests read one file.",
    "3 header sizes, 2 entry arrays (chains of up to 4, with any cycle among them), 2 entries and 2 data objects without "
    "compressed content; every field symbolic in turn; offsets within 32 bytes "
    "of the right one and all outside of the file (all in the thorough tier).")

file_format(
    "C18", "Keychain tables, columns and records are decoded exactly",
    "A macOS keychain database is decoded to exactly the tables, columns and "
    "records its bytes define: every relation and attribute of the schema, "
    "and for every record each value at its offset in its type - text, "
    "number, date and time, binary data, or none. Values and offsets that are "
    "out of bounds, undefined tables and text that is not ASCII are refused "
    "with a parse error.",
    ["dtformats/keychain.py", "dtformats/keychain.yaml",
     "dtformats/keychain.debug.yaml"],
    "KeychainDatabaseFile._ReadTable, _ReadRecord, "
    "_ReadRecordSchemaAttributes, _GetAttributeValueData",
    "every value of every field and offset, every truncation",
    "the tests only read one file without looking at its tables.",
    "4 tables with up to 5 records, columns of every type; every field "
    "symbolic in turn, sizes and counts up to 31 and beyond 255 (any in the "
    "thorough tier), text with up to 2 symbolic bytes.")

file_format(
    "C19", "LevelDB and IndexedDB entries are decoded exactly",
    "A LevelDB write ahead log or descriptor is decoded record by record, the "
    "parts of a record joined across blocks and 32 KiB pages, to exactly the "
    "values its variable size integers and slices hold. A table file gives, "
    "through its footer and its index block, every entry of every data block "
    "with its key rebuilt from the previous one, sequence number, type and "
    "value, compressed or not; an IndexedDB table the same entries with the "
    "segments of their keys. Malformed files are refused with a parse error.",
    ["dtformats/leveldb.py", "dtformats/leveldb.yaml",
     "dtformats/leveldb.debug.yaml", "dtformats/indexeddb.py"],
    "LevelDBDatabaseLogFile.ReadFileObject, LevelDBDatabaseTableFile."
    "_ReadTable, _ReadIndexBlock, _ReadVariableSizeInteger, "
    "IndexedDBDatabaseTableFile._ReadKeyPrefix",
    "every value of every field, every truncation",
    "the tests read two variable size integers.",
    "logs of up to 6 blocks and 2 page boundaries, tables of 2 data blocks with "
    "up to 3 entries; every field symbolic in turn, variable size integers of "
    "up to 2 symbolic bytes; compressed data (snappy, zstd: C code) is fixed.")

file_format(
    "C20", "Spotlight metadata items are decoded exactly",
    "Opening a Spotlight store collects, over every record page of its map, "
    "compressed or not, the record of every item, a later one replacing an "
    "earlier one with the same identifier. Asking for an item returns its "
    "identifiers and, for every metadata attribute, the value the record "
    "holds: integers, bytes, floats, dates, strings and references resolved "
    "through the type, name, list and localized string tables, whether these "
    "are kept in property pages or in the streams map files beside the store. "
    "Debug output shows the same values and changes none. Malformed stores "
    "are refused with a parse error.",
    ["dtformats/spotlight_storedb.py", "dtformats/spotlight_storedb.yaml",
     "dtformats/spotlight_storedb.debug.yaml"],
    "SpotlightStoreDatabaseFile._ReadRecordPageValues, _ReadRecord, "
    "_ReadMetadataAttribute, _ReadPropertyPages, _ReadIndexStreamsMap, "
    "_ReadVariableSizeInteger, GetMetadataItemByIdentifier",
    "every value of every field, every truncation, every table layout",
    "the tests read one store.",
    "stores of up to 2 record pages and 2 records, one attribute of each of "
    "the 23 kinds of type in turn, chains of 2 property pages, streams maps "
    "of up to 7 values; every field symbolic in turn, values of 1 to 8 "
    "symbolic bytes; compressed data (zlib, lz4: C code) is fixed. A store "
    "that files a page under a table of another kind is only required to be "
    "read or refused with a parse error.")

file_format(
    "C21", "Windows task scheduler job files are decoded exactly",
    "A Windows XP job file is decoded to exactly the values in its bytes: its "
    "fixed-length section, its five length-prefixed strings, user data, "
    "reserved data and every trigger; the task configuration it gives has "
    "those values. Malformed files are refused with a parse error.",
    ["dtformats/job.py", "dtformats/job.yaml", "dtformats/job.debug.yaml"],
    "WindowsTaskSchedularJobFile.ReadFileObject, GetWindowsTaskConfiguration",
    "every value of every field, every truncation",
    "the tests read one file.",
    "5 strings, up to 3 triggers; every field symbolic in turn.")

file_format(
    "C22", "USN journal records are decoded exactly",
    "The records of a USN change journal are read in order, each at its "
    "offset, padding and block boundaries skipped, to exactly the values in "
    "their bytes with the file name at the offset and of the size stated. "
    "Malformed records are refused with a parse error.",
    ["dtformats/usn_journal.py", "dtformats/usn_journal.yaml",
     "dtformats/usn_journal.debug.yaml"],
    "USNRecords.ReadRecords, _ReadRecordV2",
    "every value of every field, every truncation",
    "the tests read one file.",
    "up to 3 records in up to 2 blocks; every field symbolic in turn.")

file_format(
    "C23", "Restore point logs and change logs are decoded exactly",
    "A restore point log (rp.log) and a change log (change.log.#) are decoded "
    "to exactly the values in their bytes: header, event and record types, "
    "times, the volume path, and of every change log entry its process name, "
    "sequence number and sub records. Malformed files are refused with a "
    "parse error.",
    ["dtformats/rp_log.py", "dtformats/rp_log.yaml",
     "dtformats/rp_change_log.py", "dtformats/rp_change_log.yaml"],
    "RestorePointLogFile.ReadFileObject, RestorePointChangeLogFile._ReadRecord",
    "every value of every field, every truncation",
    "the tests read one file of each.",
    "up to 2 entries with up to 3 sub records; every field symbolic in turn. "
    "A record whose size does not fit its parts is only required to be read "
    "or refused with a parse error.")

file_format(
    "C24", "Jump list entries are found and described exactly",
    "A custom destinations file is walked category by category: every "
    "category header and footer is decoded exactly, and the shortcuts "
    "between them are returned in order with the file offset each starts at, "
    "whatever the same reader opened before. An automatic destinations file "
    "gives the values of every DestList entry of every format version and "
    "the shortcut of every other stream under its name. Malformed files are "
    "refused with a parse error.",
    ["dtformats/jump_list.py", "dtformats/jump_list.yaml",
     "dtformats/jump_list.debug.yaml"],
    "CustomDestinationsFile.ReadFileObject, _ReadCategoryHeader, "
    "AutomaticDestinationsFile._ReadDestList, GetJumpListEntries",
    "every value of every field, every truncation",
    "the tests read one file of each.",
    "up to 4 categories with 2 shortcuts, DestList versions 1, 2 and 4 with "
    "2 entries; every field symbolic in turn. The shortcut and compound file "
    "libraries (pylnk, pyolecf: C code) are replaced by small ones in Python "
    "with the same interface.")

file_format(
    "C25", "Login item alias data is decoded exactly",
    "Alias data of either version is decoded to exactly the values in its "
    "bytes, date and time values to the millisecond, followed by every tagged "
    "value - text, numbers or binary data - and its padding. Malformed data "
    "is refused with a parse error.",
    ["dtformats/alias_data.py", "dtformats/alias_data.yaml",
     "dtformats/alias_data.debug.yaml"],
    "MacOSLoginItemAliasData.ReadFileObject, _ReadTaggedValue, "
    "_FormatIntegerAsHFSTime64bit",
    "every value of every field, every truncation",
    "the tests read one file.",
    "both versions, up to 3 tagged values of every kind; every field symbolic "
    "in turn. A tagged value whose size contradicts its kind is only required "
    "to be read or refused with a parse error.")

file_format(
    "C26", "Background item bookmark data is decoded exactly",
    "Bookmark data is decoded to exactly the values in its bytes: header, "
    "table of contents, and for every tagged value the data record at its "
    "offset; paths and number arrays are put together from the records they "
    "refer to, flags and Cocoa times are taken from the record data. "
    "Malformed data is refused with a parse error.",
    ["dtformats/bookmark_data.py", "dtformats/bookmark_data.yaml",
     "dtformats/bookmark_data.debug.yaml"],
    "MacOSBackgroundItemBookmarkData.ReadFileObject, _ReadDataRecord, "
    "_ReadStringsArray, _ReadIntegersArray, _ReadTableOfContents",
    "every value of every field, every truncation",
    "the tests read one file.",
    "up to 5 records of every type and 3 tagged values; every field symbolic "
    "in turn, offsets of one byte and beyond the file (any in the thorough "
    "tier). A record whose size contradicts its type is only required to be "
    "read or refused with a parse error.")

file_format(
    "C27", "Defender detection histories are decoded exactly",
    "A DetectionHistory file is decoded value by value to exactly the values "
    "in its bytes, each with the name its set and position give it; the "
    "threat tracking data is decoded to its keys and values. Malformed files "
    "are refused with a parse error.",
    ["dtformats/detection_history.py", "dtformats/detection_history.yaml",
     "dtformats/detection_history.debug.yaml"],
    "WindowsDefenderScanDetectionHistoryFile._ReadValue, "
    "_ReadThreatTrackingData, _ReadThreatTrackingValue",
    "every value of every field, every truncation",
    "the tests read one file.",
    "up to 4 sets of up to 26 values, 5 threat tracking values; every field "
    "symbolic in turn, sizes of one byte (any in the thorough tier).")

file_format(
    "C28", "Firefox cache files are decoded exactly",
    "A Firefox version 1 cache map is decoded to exactly the header values "
    "and records in its bytes; a cache block file to every entry that starts "
    "in one of its blocks, wherever the entries before it end and whatever "
    "the blocks between them hold. Malformed maps are refused with a parse "
    "error.",
    ["dtformats/firefox_cache1.py", "dtformats/firefox_cache1.yaml",
     "dtformats/firefox_cache1.debug.yaml"],
    "CacheMapFile._ReadFileHeader, _ReadRecord, "
    "CacheBlockFile._ReadCacheEntry, ReadFileObject",
    "every value of every field, every truncation",
    "the tests read one file of each.",
    "maps of up to 2 records, block files of each block size with up to 4 "
    "entries; every field symbolic in turn, sizes of one byte and beyond the "
    "file.")

file_format(
    "C29", "Metafiles are decoded exactly, record by record",
    "A WMF or EMF file is decoded to exactly the header values and records "
    "in its bytes: every record starts where the one before it ends, its "
    "data is what follows its header, and map modes, stretch modes, raster "
    "operations and coordinates are shown for what they are. A record too "
    "small for its header is refused with a parse error instead of being "
    "read forever.",
    ["dtformats/wemf.py", "dtformats/emf.yaml", "dtformats/wmf.yaml"],
    "EMFFile and WMFFile _ReadFileHeader, _ReadHeader, _ReadRecord, "
    "_ReadRecordData, ReadFileObject",
    "every value of every field, every truncation",
    "the tests read one file of each and print nothing of its records.",
    "files of up to 3 records, every field symbolic in turn; record sizes "
    "of one byte or beyond the file in quick, any 32-bit size in thorough; "
    "whether truncated record data is refused is left open.")

file_format(
    "C30", "Unified logging format strings are rendered as printf would",
    "A unified logging format string is split into exactly its literal text "
    "and its operators, and every value is shown as its operator says: "
    "flags in any combination, width, precision, length modifier and "
    "conversion, with the zero value, negative values, out of range "
    "characters and missing values included; a value of the wrong size is "
    "shown as unsupported and never raises.",
    ["dtformats/unified_logging.py"],
    "FormatStringOperator, StringFormatter, the Format*Value decoders",
    "every value of each argument and every text of the format string",
    "the tests format a handful of values with a handful of operators.",
    "format strings of up to 5 symbolic characters; every operator with "
    "each flag pair, width and precision sampled symbolically; argument "
    "bytes all symbolic, of 0 to 8 bytes; the digits of floating-point "
    "values are those of the interpreter on corner values.")

file_format(
    "C31", "Unified logging values are named and decoded exactly",
    "Every value type a unified logging format string can name (booleans, "
    "error codes, UUIDs, dates, IP and MAC addresses, socket addresses, "
    "Open Directory, Core Location, mDNS, signpost and Windows identifiers) "
    "is decoded to exactly the text of its bytes; a value of another size "
    "or an unknown code is shown as unsupported or as its number.",
    ["dtformats/unified_logging.py", "dtformats/aul_*.yaml",
     "dtformats/darwin.py"],
    "TraceV3File._DecodeValue and the *FormatStringDecoder classes",
    "every value of every field of each value type, every size",
    "the tests decode one value per decoder.",
    "value data of up to 64 bytes, every field symbolic in turn; sizes one "
    "below and one above; strings of up to 4 symbolic bytes.")

file_format(
    "C32", "Unified logging string and time files are decoded exactly",
    "A shared-cache strings (dsc), uuidtext or timesync file is decoded to "
    "exactly its ranges, UUIDs, entries, strings and records, and looking "
    "up a string reference yields exactly the string of the range or entry "
    "that contains it, dynamic references included, or nothing when none "
    "does; a reader used again keeps nothing of the earlier file.",
    ["dtformats/unified_logging.py", "dtformats/aul_dsc.yaml",
     "dtformats/aul_uuidtext.yaml", "dtformats/aul_timesync.yaml"],
    "DSCFile, UUIDTextFile, TimesyncDatabaseFile",
    "every value of every field and of the reference looked up, every "
    "truncation",
    "the tests read one file of each and look up no boundary.",
    "files of up to 3 ranges, entries or records; reads after another file "
    "included; signatures and versions the reader does not know are left "
    "open where the reader does not refuse them.")

file_format(
    "C33", "Unified logging log entries are reconstructed exactly",
    "Reading a tracev3 file yields exactly the log entries its chunks "
    "describe, in order: for every activity, trace, log, signpost and loss "
    "tracepoint, state dump and simple dump, the entry has the process, "
    "sub system, activity, signpost, sender image, program counter, backtrace, "
    "time, type and message that the catalog, the string files, the oversize "
    "and private data and the timesync records determine; what cannot be "
    "decoded is refused with ParseError; reading twice, with debug output, by "
    "a relative path or after another file changes nothing.",
    ["dtformats/unified_logging.py", "dtformats/aul_tracev3.yaml"],
    "TraceV3File (Open, ReadLogEntries, catalogs, chunk sets, firehose, "
    "oversize, state dump and simple dump chunks)",
    "every value of every member of every structure, one or two members at "
    "once, with the strings files, timesync files or neither present",
    "the tests read a few files and compare a few entries; which image, "
    "string, private range or time a tracepoint refers to depends on "
    "combinations of flags that no test file has.",
    "logs of one to four tracepoints, two processes and three images; values "
    "with operators %d, %u, %x and %s (the other operators are C30 and C31); "
    "uncompressed chunk sets (compressed data cannot depend on the input); "
    "what the format leaves open (unaligned ends, offsets beyond the chunk, "
    "private data outside its range) needs to be handled only.")

file_format(
    "C34", "A WMI repository gives exactly its keys, records and namespaces",
    "Opening a WMI (CIM) repository of version 2.1 or 2.2 uses the mapping "
    "files that are current (index.map and objects.map, else the mapping "
    "file with the highest sequence number), whatever the case of the file "
    "names; the index gives exactly the keys of its pages in order; every "
    "key gives exactly the data of its object record, also when it spans "
    "pages; and the instances and namespaces are exactly those the records "
    "describe, every namespace by its full path. What is missing, recursive "
    "or out of bounds is refused, and closing and opening another "
    "repository keeps nothing of the first.",
    ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml"],
    "CIMRepository, MappingFile, IndexBinaryTreeFile, ObjectsDataFile",
    "every value of every member of the mapping tables, pages and "
    "descriptors, every truncation, every combination of files",
    "the tests open one repository and read one page or table of each file.",
    "mapping tables of up to four entries; index trees of up to five pages; "
    "records of up to two pages; four levels of namespaces; the names of "
    "classes and namespaces are hashed and therefore not symbolic; files of "
    "a real scratch folder named in any case, their content symbolic.")

file_format(
    "C35", "WMI class definitions and instances are decoded exactly",
    "A class definition block of a WMI repository is decoded to exactly its "
    "name, super class, qualifiers and properties, each property with its "
    "data type, index, offset and qualifiers; the value map of a class and "
    "its super classes lays out exactly the properties of the chain; and an "
    "instance block is decoded to exactly the values of those properties, "
    "with the defaults and the unset and inherited values told apart, "
    "strings, numbers, booleans and arrays of every type included; what "
    "cannot be decoded is refused with ParseError and debug output changes "
    "nothing.",
    ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml"],
    "ClassDefinition, ClassValueDataMap, Instance",
    "every value of every byte of the blocks, one to four at once, every "
    "truncation",
    "the tests read a few test repositories and compare a few properties.",
    "class definitions of up to four properties and one level of super "
    "classes; instances of classes with one property of every type; strings "
    "that are not Latin-1 are left out where they name a class; whether a "
    "boolean other than 0 and 0xffff is refused is left open.")

file_format(
    "C36", "A WMI repository file (cim.rep) gives exactly its hierarchy",
    "A WMI repository file of version 2.0 gives exactly the instances and "
    "namespaces that its cells refer to, in the order of the hierarchy from "
    "the root namespace cell, and the instances of its system class "
    "hierarchy; every link, list, tree depth, cell size and bin boundary is "
    "followed as the format says; hierarchies that are recursive or leave "
    "the file are refused with ParseError.",
    ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml"],
    "RepositoryFile, CIMRepository",
    "every link of every node to ten (thorough: all) places, every value of "
    "the other members, every truncation",
    "the tests read single nodes and no hierarchy.",
    "one hierarchy of some forty cells with four namespaces and two "
    "classes, one or two members changed at once; debug output only has to "
    "be handled where it reads more than the values.")

file_format(
    "C37", "The keys of an AMCache hive are shown exactly",
    "Of an AMCache hive every program and file reference is shown with exactly "
    "the values its key holds, decoded by their type, with the identifiers and "
    "the date and time values that they stand for, in the order of the hive; "
    "absent keys and values are left out and no other value is shown.",
    ["dtformats/amcache.py"],
    "AMCacheFile, its program and file keys",
    "every value data, type and name within the bounds",
    "the tests read no hive with values.",
    "up to three keys with a few values each, handed over by a stand-in for "
    "pyregf (the library that reads the hive, C code outside the "
    "repository).")
file_format(
    "C38", "The unified logging script shows every log entry, in order",
    "The unified logging script shows each log entry of a file once, in the "
    "order of time, with exactly the fields the entry has: as JSON that is "
    "well-formed whatever the text of the entry, or as a line of text.",
    ["scripts/unified_logging.py"],
    "Main, the JSON and text output of log entries",
    "every number, every text of a few characters and every combination of "
    "absent fields within the bounds",
    "the tests do not run the script.",
    "up to three entries, one or two fields symbolic at once, handed over by "
    "a stand-in for the reader of log files (decided by C33).")
file_format(
    "C39", "NSKeyedArchiver property lists are decoded exactly",
    "Decoding an NSKeyedArchiver property list gives exactly the object tree "
    "that its references describe: arrays, sets, dictionaries, strings, data, "
    "dates, URLs, identifiers and the supported composite classes, each "
    "reference followed to the object of its number; a class that is not "
    "supported or a header that is not that of an archive is refused.",
    ["scripts/decode_nskeyedarchiver_plist.py"],
    "NSKeyedArchiverDecoder and its class decoders, JSON encoder",
    "every reference number and value within the bounds",
    "the tests do not run the script.",
    "trees of up to six objects without cycles, handed over as Python objects as plistlib "
    "offers them (the reading of the property list itself is outside).")

file_format(
    "C40", "The scripts show every record that their reader gives",
    "The scripts of USN journals, keychains, LevelDB, IndexedDB, WMI "
    "repositories, Spotlight stores, restore point change logs, task "
    "scheduler jobs, recycle bin metadata and prefetch hashes show each record "
    "that the reader gives once, in order, with exactly its values under the "
    "right labels, whichever values are absent; they choose the reader that "
    "the file asks for, open and close it once, and refuse to run without a "
    "source.",
    ["scripts/usn_journal.py", "scripts/keychain.py", "scripts/leveldb.py",
     "scripts/indexeddb.py", "scripts/wmi_repository.py",
     "scripts/spotlight_storedb.py", "scripts/rp_change_log.py",
     "scripts/job.py", "scripts/recycle_bin.py", "scripts/prefetch_hash.py"],
    "Main, PrintInstance, PrintNamespace, TableView",
    "every number, text of a few characters and combination of absent values "
    "within the bounds",
    "the tests do not run the scripts.",
    "up to three records, one or two of them symbolic, handed over by "
    "stand-ins for the readers (decided by the other properties); dates of "
    "Spotlight attributes are outside.")
file_format(
    "C41", "The jump list script shows every shortcut and shell item",
    "The jump list script shows each shortcut of a jump list once, in order, "
    "with its flags, times, numbers and texts, every shell item of its target "
    "by its type with its extension blocks, every data block and every "
    "property with its key, name and value; absent values are left out.",
    ["scripts/jump_list.py", "dtformats/shell_property_keys.py"],
    "StdoutWriter and Main",
    "every number, every flag, every choice of absent values within the "
    "bounds",
    "the tests do not run the script.",
    "up to two entries, items and data blocks, handed over by stand-ins for "
    "pylnk, pyfwsi and pyfwps (C code outside the repository); property "
    "types that are not supported are outside.")

file_format(
    "C42", "A script reads the file it is given once and closes it",
    "Each script that shows one file opens exactly the path it is given with "
    "the reader of its format, reads it once, passes on the debug option, "
    "closes the reader and reports success; without a path it opens nothing; "
    "utmp, wemf, Firefox and Chrome cache scripts select the reader by the "
    "signature, the name or the kind of the file.",
    ["scripts/asl.py", "scripts/utmp.py", "scripts/wemf.py",
     "scripts/firefox_cache1.py", "scripts/chrome_cache.py",
     "scripts/systemd.py", "scripts/tzif.py", "scripts/cups_ipp.py",
     "scripts/bsm.py", "scripts/gzipfile.py", "scripts/fseventsd.py",
     "scripts/recycler.py", "scripts/rp_log.py", "scripts/alias_data.py",
     "scripts/bookmark_data.py", "scripts/safari_cookies.py",
     "scripts/detection_history.py"],
    "Main",
    "every signature, every character of a file name, every argument order "
    "within the bounds",
    "the tests do not run the scripts.",
    "the readers are stand-ins (decided by the other properties); file names "
    "of up to 12 characters in up to three folders.")
file_format(
    "C43", "The analyzer shows every structure of a VHDX image",
    "The binary data format analyzer shows the file information, both "
    "headers and both region tables of a VHDX image at the offsets and with "
    "the fields [MS-VHDX] gives them, every field once, in order and with its "
    "own value; a structure that is cut short or has another signature is "
    "refused.",
    ["scripts/analyzer.py", "dtformats/vhdx.yaml"],
    "BinaryDataFormatAnalyzer.ReadFileObject and Main",
    "every byte of the fields, and the number of regions within the bounds",
    "the tests do not run the analyzer.",
    "up to five regions, 2 to 8 symbolic bytes per case, images of up to "
    "five blocks of 64 KiB.")
file_format(
    "C44", "The file system helpers are about exactly the file that is named",
    "A file system helper looks for, measures, lists and opens exactly the "
    "path it is given, in the file system it opened: in an image with the "
    "type and the parent of that file system, in whatever order several "
    "images are used; a missing file has no size, no entries and no file "
    "object; joined segments split into the same segments. The back end that "
    "is named, and no other, is preferred; an image is used only if the "
    "arguments select exactly one file system.",
    ["dtformats/dfvfs_helpers.py", "dtformats/file_system.py"],
    "DFVFSFileSystemHelper, NativeFileSystemHelper, SetDFVFSBackEnd and "
    "ParseDFVFSCLIArguments",
    "every path, name and size, every choice of missing files and arguments "
    "within the bounds",
    "the tests use one file that exists.",
    "paths of up to 7 characters, two images and four operations; the file "
    "systems of dfVFS and the operating system are stand-ins.")

not_applicable("N01", "")
NA.clear()
