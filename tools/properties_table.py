prop("P01", "A data range is a read-only window of its file",
     "For every file, range offset and range size, and for every sequence of reads, seeks, size and position queries, a data range behaves as a read-only file that consists of exactly the bytes of the underlying file inside the range. Reads never return bytes outside the range and never more than asked for, seeks relative to start, position and end move within the range, a negative resulting position is refused with an OSError and leaves the position unchanged, and invalid whence values are refused.",
     ["inputs", "histories"],
     "all file contents and sizes, all range offsets and sizes, all operation sequences of any length",
     "tests do a handful of reads and seeks on one 8 byte range; the guarantee is over all sequences of operations, also where the range ends beyond the file",
     ["dtformats/data_range.py"],
     [("range reads", "dtformats/data_range.py DataRange.read"),
      ("range seeks", "dtformats/data_range.py DataRange.seek, get_size, tell")])

prop("P02", "Reading structures: exact bytes, or a ParseError",
     "Reading data at a file offset returns exactly the requested bytes at that offset or fails with a ParseError when they are not all available or the file cannot be read. Reading a structure of fixed or variable size consumes exactly the bytes the structure occupies, reports that size, and turns every mapping failure into a ParseError; definitions are looked up by name and the same name always gives the same, requested, definition.",
     ["inputs", "fault_sequences", "histories"],
     "all files, offsets and sizes; all outcomes of mapping the bytes; all I/O errors; all sequences of definition lookups",
     "tests read one structure from one small file; short reads, I/O errors and growing variable size structures are not sampled",
     ["dtformats/data_format.py"],
     [("bounded read", "dtformats/data_format.py BinaryDataFormat._ReadData"),
      ("structure read", "dtformats/data_format.py BinaryDataFormat._ReadStructureFromFileObject, _ReadStructureFromByteStream"),
      ("definition lookup", "dtformats/data_format.py BinaryDataFormat._GetDataTypeMap")])

prop("P03", "A hexadecimal dump shows every byte exactly once",
     "The hexadecimal dump of any data shows every byte once and in order, 16 per line with the offset of the line, the hexadecimal values and the printable character (or a dot) in aligned columns. Only lines identical to the lines around them are replaced by an ellipsis, at most one per run, and never the first or last line.",
     ["inputs"], "all byte strings of any length, including runs of repeated lines at any place",
     "tests dump a few fixed byte strings; which lines are elided depends on the relation between all neighbouring lines",
     ["dtformats/data_format.py"],
     [("hexadecimal dump", "dtformats/data_format.py BinaryDataFormat._FormatDataInHexadecimal")])

prop("P04", "Hash functions equal the published algorithms",
     "The SuperFastHash of a key and the Prefetch path hashes for Windows XP, Vista and 2008 equal the published 32-bit algorithms for every input. This includes wrap-around, sign extension, inputs whose length is not a multiple of the block size and path text outside the Latin alphabet.",
     ["inputs"], "all byte strings and all path strings of any length",
     "tests hash a few short ASCII paths; wrap-around, remainder bytes and sign extension need particular lengths and byte values",
     ["dtformats/chrome_cache.py", "dtformats/prefetch.py"],
     [("SuperFastHash", "dtformats/chrome_cache.py SuperFastHash"),
      ("Prefetch hashes", "dtformats/prefetch.py CalculatePrefetchHashXP, CalculatePrefetchHashVista, CalculatePrefetchHash2008")])

prop("P05", "Browser cache files are decoded to the values they store",
     "For every Chrome cache address, index file, data block file and cache entry, and every Firefox version 1 cache map and block file, the values reported are exactly those stored at the documented offsets: file type, filename, block number, offset and size, version, times, counts, hashes and keys, for every non-empty index entry and every record. Files with the wrong signature, an unsupported version or missing data are refused with a ParseError.",
     ["inputs"], "all 32-bit addresses, all files of any size",
     "tests read one sample file per format; bit fields of addresses, truncated files and rare record kinds are not sampled",
     ["dtformats/chrome_cache.py", "dtformats/chrome_cache.yaml", "dtformats/firefox_cache1.py", "dtformats/firefox_cache1.yaml"],
     [("cache addresses", "dtformats/chrome_cache.py CacheAddress"),
      ("index and data block files", "dtformats/chrome_cache.py IndexFile, DataBlockFile"),
      ("Firefox cache", "dtformats/firefox_cache1.py")])

prop("P06", "Values are shown exactly as they are stored",
     "The text shown for a value is a function of that value alone and shows it without loss: integers in decimal, hexadecimal of the width of the type or as offset, arrays with every element, IP addresses in their standard notation, FILETIME, POSIX and floating point times with the special values for not set and never, and data as text with every non-printable byte escaped. A value is shown next to its label in an aligned column, text of several lines below it, and a structure shows every value of its definition in order. The standard output writer writes the text it is given.",
     ["inputs"], "all values of every type, labels and texts of any length, arrays of any number of elements",
     "tests format one value per type; boundary values, long labels and non-printable bytes are not sampled",
     ["dtformats/data_format.py", "dtformats/output_writers.py"],
     [("formatting", "dtformats/data_format.py BinaryDataFormat._Format*"),
      ("printing", "dtformats/data_format.py BinaryDataFormat._DebugPrint*"),
      ("output", "dtformats/output_writers.py StdoutWriter")])

prop("P07", "utmp and utmpx records are shown completely and exactly",
     "Reading a Linux utmp or Mac OS utmpx file shows every record of the file once and in order, and every value of a record as stored: type of login with its name, process, terminal, user and host names up to the padding also if they are not valid UTF-8, status, session, time, and the IPv4 or IPv6 address. A file that ends inside a record, or a utmpx file without the signature record, is refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of records",
     "tests read one sample file per format without looking at the values shown",
     ["dtformats/utmp.py", "dtformats/utmp.yaml", "dtformats/utmp.debug.yaml"],
     [("Linux utmp", "dtformats/utmp.py LinuxLibc6UtmpFile"),
      ("Mac OS utmpx", "dtformats/utmp.py MacOSXUtmpxFile")])

prop("P08", "Windows recycle bin and restore point files are decoded exactly",
     "Reading a recycle bin metadata file ($I) of version 1 or 2 gives the original file name, size and deletion time it stores; reading a RECYCLER INFO2 file shows the header and every file entry with its ANSI and, when the entry has one, Unicode name, index, drive number, deletion time and size; reading a restore point log shows event and restore point type with their names, sequence number, description and creation time. Unsupported versions and entry sizes, missing data, missing string terminators and invalid characters are refused with a ParseError. Nothing is written outside of the debug mode.",
     ["inputs"], "all files of any size and content",
     "tests read one sample file per format without looking at the values shown",
     ["dtformats/recycle_bin.py", "dtformats/recycler.py", "dtformats/rp_log.py"],
     [("$I file", "dtformats/recycle_bin.py RecycleBinMetadataFile"),
      ("INFO2 file", "dtformats/recycler.py RecyclerInfo2File"),
      ("restore point log", "dtformats/rp_log.py RestorePointLogFile")])

prop("P09", "Windows tasks and change journals are decoded exactly",
     "Reading a Windows task (.job) file shows the product version, identifier, run counters, flags, times, names, comment, reserved data, every trigger and the job signature exactly as stored at the offsets of the format, and the configuration returned holds the same application name, parameters, working directory, user name and comment. Reading a USN change journal shows every version 2 record of the journal once and in order with its reference numbers, update sequence number, time, reason and source flags, attributes and name; padding and sparse blocks are skipped and never end the listing. Missing data, wrong sizes and undecodable names are refused with a ParseError; nothing is written outside of the debug mode.",
     ["inputs"], "all files of any size, any number of triggers, records and blocks",
     "tests read one sample file per format without looking at the values shown; records beyond the first block are not in a sample",
     ["dtformats/job.py", "dtformats/job.yaml", "dtformats/usn_journal.py", "dtformats/usn_journal.yaml"],
     [("Windows task", "dtformats/job.py WindowsTaskSchedularJobFile"),
      ("change journal", "dtformats/usn_journal.py USNChangeJournal")])

prop("P10", "Safari cookies and macOS file system events are decoded exactly",
     "Reading a Safari binary cookie file shows every cookie of every page once and in order, with its sizes, flags, offsets, creation and expiration time, and its URL, name, path and value up to the terminator of each string at the offset the record stores. Reading a file system events log shows every record of every page with path, event identifier, flags and (in version 2) node identifier. Unsupported signatures, offsets outside the record, missing data and undecodable strings are refused with a ParseError. Nothing is written outside of the debug mode.",
     ["inputs"], "all files of any size, any number of pages and records",
     "tests read one sample file per format without looking at the values shown",
     ["dtformats/safari_cookies.py", "dtformats/safari_cookies.yaml", "dtformats/fseventsd.py", "dtformats/fseventsd.yaml"],
     [("binary cookies", "dtformats/safari_cookies.py BinaryCookiesFile"),
      ("disk log streams", "dtformats/fseventsd.py FseventsFile")])

prop("P11", "gzip and CPIO archives are read member by member, exactly",
     "Reading a gzip file shows the header, the original filename, the comment and the footer of every member as stored, and finds the end of the compressed data of a member, also of members without data, so that the next member is read where it starts. Reading a CPIO archive of any of its formats (binary in either byte order, portable ASCII, new ASCII with or without checksum) gives every file entry up to the trailer with path, inode number, mode, owner, modification time, data offset and size as stored; looking up a path gives its first entry and None or False for a path that is not in the archive, and listing by prefix gives the entries of that prefix in order. Unsupported formats, invalid numbers or paths, invalid compressed data and missing data are refused with a ParseError.",
     ["inputs"], "all files of any size, any number of members and entries, all paths",
     "tests read one sample file per format; alignment, duplicate paths, empty members and truncated or malformed entries are not sampled",
     ["dtformats/gzipfile.py", "dtformats/gzipfile.yaml", "dtformats/cpio.py", "dtformats/cpio.yaml"],
     [("gzip members", "dtformats/gzipfile.py GZipFile"),
      ("CPIO entries", "dtformats/cpio.py CPIOArchiveFile")])

prop("P12", "Time zone information is read and shown whole",
     "Reading a time zone information (tzif) file shows the header, every transition time, every type of local time, the local time types table, the abbreviation strings, the leap second records and the standard time and UTC indicators of the 32-bit time zone information, and for format versions 2 and 3 also those of the 64-bit time zone information that follows directly, with 64-bit transition times and 12-byte leap second records, and the time zone string at the end. Every part is taken from where the sizes in the header put it, also when there are no transition times; an unsupported signature or version and missing data are refused with a ParseError.",
     ["inputs"], "all files of any size and all numbers in the headers",
     "tests read a single sample file; other versions, empty parts and truncated files are not sampled",
     ["dtformats/tzif.py", "dtformats/tzif.yaml"],
     [("time zone information", "dtformats/tzif.py TimeZoneInformationFile")])

prop("P13", "Apple System Log and systemd journal files are shown completely and exactly",
     "Reading an Apple System Log file shows its header and every record of the list of records once and in order, with every value as stored, the names and values of the extra fields, and every string either as stored inside the record or read from the place in the file the record refers to. Reading a systemd journal file shows its header, every entry of every entry array of the chain once and in order, and every data object an entry refers to. Files with a wrong signature, an unsupported version, object or compression, missing data, or a list or chain that does not end are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of records, extra fields, entries and arrays",
     "tests read one sample file per format without looking at the values shown; strings stored elsewhere, chains of arrays and lists that form a loop are not sampled",
     ["dtformats/asl.py", "dtformats/asl.yaml", "dtformats/asl.debug.yaml", "dtformats/systemd.py", "dtformats/systemd.yaml", "dtformats/systemd.debug.yaml"],
     [("Apple System Log", "dtformats/asl.py AppleSystemLogFile"),
      ("systemd journal", "dtformats/systemd.py SystemdJournalFile")])

prop("P14", "CUPS IPP files and restore point change logs are shown completely and exactly",
     "Reading a CUPS IPP control file shows its header and every attribute of every group once and in order up to the end tag, each with its tag, name and value as stored: integers, booleans, date and time values, and strings decoded with the character set the attributes give. Reading a Windows restore point change log (change.log) shows its header with the volume path, and every entry once and in order with its type, flags, file attributes, sequence number and process name, and every record of an entry with its header, data and path or file name; the entries kept hold the same values. Unsupported signatures, versions, tags and values, record sizes that do not match, missing data and undecodable strings are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of attributes, entries and records",
     "tests read one sample file per format without looking at the values shown; other character sets, secondary paths and truncated records are not sampled",
     ["dtformats/cups_ipp.py", "dtformats/cups_ipp.yaml", "dtformats/cups_ipp.debug.yaml", "dtformats/rp_change_log.py", "dtformats/rp_change_log.yaml"],
     [("CUPS IPP control file", "dtformats/cups_ipp.py CupsIppFile"),
      ("restore point change log", "dtformats/rp_change_log.py RestorePointChangeLogFile")])

prop("P15", "macOS keychain databases are read completely and exactly",
     "Reading a macOS keychain database file shows its header, the array of tables and every table with its records, and keeps the tables with their names, columns and records: the schema records define the tables, indexes and columns, and every record of another table has a value for each column of the table, read at the offset of that column as string, signed or unsigned integer, date and time or binary data, or no value if it is not set. In the debug mode the data of every value is shown up to where the next value starts. Records of unknown tables, columns without a name, offsets outside of the record, missing data and undecodable strings are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of tables, columns and records",
     "tests read one sample file without looking at values; unordered values, unnamed columns, missing values and truncated records are not sampled",
     ["dtformats/keychain.py", "dtformats/keychain.yaml", "dtformats/keychain.debug.yaml"],
     [("keychain database", "dtformats/keychain.py KeychainDatabaseFile")])

prop("P16", "BSM audit records are shown completely and exactly",
     "Reading a Basic Security Module (BSM) event auditing file reads record after record, so that every byte of the file is part of exactly one record: a header token, any number of other tokens and a trailer token with the same record size as the header. In the debug mode every value of every token is shown, in the order of the file and in big-endian, with event types as their name and addresses as IPv4 or IPv6 address; the elements of data tokens, groups and the strings of exec tokens are read up to exactly their end. Unknown tokens, unsupported versions and address types, invalid trailers, texts that are not ASCII and missing data are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, with any number of records, tokens, groups and strings",
     "tests read one sample file with six kinds of tokens without looking at values; the other kinds of tokens, and records without trailer or with tokens that end late, are not sampled",
     ["dtformats/bsm.py", "dtformats/bsm.yaml", "dtformats/bsm.debug.yaml"],
     [("BSM event auditing file", "dtformats/bsm.py BSMEventAuditingFile")])

prop("P17", "macOS login item alias data and background item bookmark data are read completely and exactly",
     "Reading the alias data of a login item shows its header, its record of version 2 or 3 with every value and date and time, and every tagged value up to the end of the record, where a value that has an odd size is followed by a byte of padding. Reading the bookmark data of a background item shows its header, its table of contents and, for every tagged value, its data record with the value of its type: string, integers, integer of 8, 16, 32 or 64 bits, floating point or other data; a path and an array of integers are resolved through the data records they refer to, and property flags and Cocoa timestamps are decoded. Unsupported versions, sizes, offsets, signatures, data records of a type that does not have the needed value, missing data and undecodable strings are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of tagged values and data records",
     "tests read one sample file of each without looking at values; other data types, references to records of another type and truncated records are not sampled",
     ["dtformats/alias_data.py", "dtformats/alias_data.yaml", "dtformats/alias_data.debug.yaml", "dtformats/bookmark_data.py", "dtformats/bookmark_data.yaml", "dtformats/bookmark_data.debug.yaml"],
     [("alias data", "dtformats/alias_data.py MacOSLoginItemAliasData"), ("bookmark data", "dtformats/bookmark_data.py MacOSBackgroundItemBookmarkData")])

prop("P18", "Windows Defender detection history is read completely and exactly",
     "Reading a scan DetectionHistory file reads every value object of the file, one after the other up to the end of the file with padding to 8 bytes, and shows its size, data type and data as the value of its type: string, integer, date and time, GUID, boolean or binary data; the value objects are the threat name, identifiers, category and other values of the documented order, and the threat tracking data is decoded into its header and every value up to its size. An unsupported data type or size of a value and a file that ends in the middle of a value are refused with a ParseError, and so is, in debug mode, in which the threat tracking data is decoded, threat tracking data that is not binary data or too small. Nothing is written outside of the debug mode.",
     ["inputs"], "all files of any size, any number of values and threat tracking values",
     "tests read one sample file without looking at values; other data types, orders of threat tracking data and truncated values are not sampled",
     ["dtformats/detection_history.py", "dtformats/detection_history.yaml", "dtformats/detection_history.debug.yaml"],
     [("detection history", "dtformats/detection_history.py WindowsDefenderScanDetectionHistoryFile")])

prop("P19", "Windows jump list files are read completely and exactly",
     "Reading an AutomaticDestinations file shows the header of the destinations list and every entry of it, one after the other up to the end of the stream, for format versions 1 to 4, with the identifiers, host name, entry number, date and time, pin status and path of the entry. Reading a CustomDestinations file shows the file header and every category the header counts with its name, entries and footer, finds the LNK file of every entry by its class identifier and passes exactly the data of that entry, the entries being identified by their offset in the file, and shows the data after the last category. A format version, category type, signature or class identifier that is not supported, missing data and LNK files that cannot be read are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of entries, categories and LNK files",
     "tests read sample files without looking at values; several categories, unknown versions and truncated entries are not sampled",
     ["dtformats/jump_list.py", "dtformats/jump_list.yaml", "dtformats/jump_list.debug.yaml"],
     [("automatic destinations", "dtformats/jump_list.py AutomaticDestinationsFile"), ("custom destinations", "dtformats/jump_list.py CustomDestinationsFile"), ("LNK file entries", "dtformats/jump_list.py LNKFileEntry")])

prop("P20", "Windows metafiles are read record by record, exactly",
     "Reading an enhanced metafile shows its file header and every record up to the end of the file, each with its type, the documented name of the type, its size and its data; reading a Windows metafile shows the placeable header if there is one, the file header and every record, with the values of the record functions that are supported and the name of every enumeration value. The next record starts exactly where the size of the previous one says. The values of a record are never read from data beyond its own size, and WMF file headers of an unsupported type or size, records that are smaller than their header, and headers and, in debug mode, in which the values are decoded, records with too little data are refused with a ParseError. Nothing is written outside of the debug mode.",
     ["inputs"], "all files of any size, any number of records of any type",
     "tests read one sample file of each without looking at values; other record types, raster operations, records smaller than their header and truncated records are not sampled",
     ["dtformats/wemf.py", "dtformats/wemf.yaml", "dtformats/wemf.debug.yaml"],
     [("EMF", "dtformats/wemf.py EMFFile"), ("WMF", "dtformats/wemf.py WMFFile")])

prop("P21", "LevelDB and IndexedDB databases are read record by record, exactly",
     "Reading a LevelDB write ahead log or descriptor shows every block, joins the parts of a record across blocks and pages, and shows every value of every complete record; reading a LevelDB table gives, in order, every entry of every data block the index block refers to, with the key rebuilt from what it shares with the previous key, the sequence number, value type and value, also when blocks are compressed; IndexedDB entries have the database, object store and index their key prefix says. Variable size integers are decoded as 7 bits per byte, least significant first. Nothing is read beyond the record, block or table it belongs to; unsupported value types, tags and compression, restart counts and sizes that do not fit, compressed data that cannot be decompressed and too little data are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of blocks, records, values and entries, keys of any length",
     "tests read a few sample files without looking at values; records of several parts, shared keys of several lengths, integers of any size, compressed blocks and truncated data are not sampled",
     ["dtformats/leveldb.py", "dtformats/leveldb.yaml", "dtformats/leveldb.debug.yaml", "dtformats/indexeddb.py"],
     [("LevelDB", "dtformats/leveldb.py LevelDBDatabaseLogFile, LevelDBDatabaseDescriptorFile, LevelDBDatabaseTableFile"), ("IndexedDB", "dtformats/indexeddb.py IndexedDBDatabaseTableFile")])

prop("P22", "Apple Spotlight store databases are read page by page and record by record, exactly",
     "Reading a Spotlight store gives every map value of every map page, every metadata type, value, list and localized string of its chains of property pages or of the streams map files beside it, and a descriptor of every record of every record page, decompressed with LZ4 or deflate where it is compressed; a metadata item has the identifiers and the attributes of its record, each with the type that its relative index adds up to and the value that its value and property type say, with references resolved in the table of their kind. Variable size integers have as many additional bytes as their first byte has leading 1 bits, most significant first. Nothing is read beyond the record, page or data size it belongs to; unsupported signatures, types of pages, value types and compression, chains of pages that do not end, sizes that do not fit, compressed data that cannot be decompressed and too little data are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of pages, records, attributes and values, integers of any size",
     "tests read a few pages of a sample file without looking at most values; integers of every size, chains of pages, compressed blocks that follow each other, values of every type and truncated data are not sampled",
     ["dtformats/spotlight_storedb.py", "dtformats/spotlight_storedb.yaml", "dtformats/spotlight_storedb.debug.yaml"],
     [("store database", "dtformats/spotlight_storedb.py SpotlightStoreDatabaseFile"), ("streams map", "dtformats/spotlight_storedb.py SpotlightStreamsMapHeaderFile, SpotlightStreamsMapOffsetsFile, SpotlightStreamsMapDataFile")])

prop("P23", "Values of Apple unified logging messages are shown exactly",
     "A value of a log message is shown as the kind that its format string names says: an integer of 1, 2, 4 or 8 bytes, little-endian, signed or unsigned, and a floating-point number of 4 or 8 bytes, with the flags, the width and the precision of the format string as printf has them; a string as its UTF-8 text without the 0 at its end, filled up to the width and cut at the precision; a boolean as one of its two values; an error, SQLite, mDNS or Open Directory code as its name, or as its number if the code is unknown; an IPv4 or IPv6 or socket address, a file mode, an UUID, a hash, a Windows security identifier, DNS flags, headers and counters, the details of a membership and the values of a signpost in their notation. A value of a size that its kind does not have, or that is not UTF-8, is shown as not supported; a security identifier or a membership whose content is cut short is refused with a ParseError.",
     ["inputs"], "all values of any size and content, all codes, flags and combinations of format string flags, widths and precisions that are listed",
     "tests format one value of each kind; the widths with a precision, the sizes, the flags in combination, the largest values and unknown codes are not sampled",
     ["dtformats/unified_logging.py", "dtformats/darwin.py", "dtformats/macos_mdns.yaml", "dtformats/macos_open_directory.yaml", "dtformats/macos_core_location.yaml", "dtformats/windows_nt.yaml"],
     [("values", "dtformats/unified_logging.py *FormatStringDecoder.FormatValue"), ("printf notation", "dtformats/unified_logging.py FormatStringOperator.GetPythonFormatString")])

prop("P24", "Timesync databases and strings files of Apple unified logs are read exactly",
     "Reading a timesync database gives every boot and sync record of the file, each at the end of the one before it as its size says. Reading a shared-cache strings file gives every range and image of its version. A string reference gives the string and the image of the first range or entry that it is in, which is one that starts at or before it and ends after it, and a reference that is in none gives nothing; a string is the UTF-8 text up to its terminator. The string references and the trace identifier of a tracepoint are put together from their parts, the values of a trace have the sizes that its data ends with, and the sync record that a time is calculated from is the first of the sorted ones that is not after it. Unsupported signatures and versions, sizes of records that do not fit and too little data are refused with a ParseError. What is read does not depend on the debug mode, and nothing is written outside of it.",
     ["inputs"], "all files of any size, any number of records, ranges, images and entries in any order, any reference",
     "tests read a few entries of sample files; references at the boundaries of ranges, ranges that touch or are not sorted, records of other sizes and truncated data are not sampled",
     ["dtformats/unified_logging.py", "dtformats/aul_timesync.yaml", "dtformats/aul_dsc.yaml", "dtformats/aul_uuidtext.yaml", "dtformats/aul_timesync.debug.yaml", "dtformats/aul_dsc.debug.yaml", "dtformats/aul_uuidtext.debug.yaml"],
     [("timesync database", "dtformats/unified_logging.py TimesyncDatabaseFile"), ("shared-cache strings", "dtformats/unified_logging.py DSCFile"), ("strings file", "dtformats/unified_logging.py UUIDTextFile"), ("tracepoints", "dtformats/unified_logging.py TraceV3File")])

NOT_APPLICABLE = []
