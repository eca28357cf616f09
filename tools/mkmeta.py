#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property definitions below."""

import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, observe, note):
    assert len(title) <= 80, title
    P.append(({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': observe, 'hook_needed': None},
    }, note))


M, A, L, S = 'dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py', 'dfir_ntfs/LogFile.py', 'dfir_ntfs/ShadowCopy.py'
FAT, EXFAT = 'dfir_ntfs/addons/FAT.py', 'dfir_ntfs/addons/exFAT.py'

prop('P01', 'Cluster run lists are decoded exactly or rejected',
     'For every encoded run list of a nonresident attribute, the decoded list of (first cluster, cluster count) pairs is the one the NTFS encoding defines: signed relative offsets accumulate, sparse runs stay sparse, and their order and counts are preserved. '
     'A list whose encoding is malformed (a field cut short, a zero or negative count, a negative cluster number) is rejected with an error and never yields runs. '
     'An attribute split over several file records is reassembled in the order of its cluster ranges from exactly its own pieces, and a missing, duplicated or contradictory piece is rejected.',
     ['inputs'], 'every byte string as an encoded run list, and every split of an attribute over base and extension records in any order',
     'Tests decode the run lists of a dozen sample images; signs, widths, truncations and split orders are a combinatorial space they do not touch.',
     [M, A], [('run list decoder', 'dfir_ntfs/MFT.py MappingPairs'), ('attribute extents reassembly', 'dfir_ntfs/MFT.py AttributeRecordNonresident.data_runs and FileRecord.attributes')],
     ['MappingPairs.get()', 'AttributeRecordNonresident.data_runs()'],
     'Exhaustive over all short encodings on a boundary alphabet, all header bytes and truncations, and all splits/orders/placements of small run lists; the oracle is an independent decoder.')

prop('P02', 'Torn multi-sector structures are never taken for intact ones',
     'For every pattern of sectors written and not written by an interrupted write of a protected structure (file record, index block, log page), the structure is accepted only if all of its sectors belong to the same write, and is otherwise reported as damaged. '
     'When accepted, its content is byte for byte what was written, with every protected sector tail restored from the update sequence array. '
     'A header whose signature, array position, array size or used size is out of bounds is rejected.',
     ['crash_points', 'inputs'], 'every subset of sectors of a structure that reached the disk, for every supported structure size and used size',
     'Tests only read intact sample files; the torn states need a crash in the middle of a write.',
     [M, A, L], [('fixup of file records', 'dfir_ntfs/MFT.py FileRecordSegment'), ('fixup of index blocks', 'dfir_ntfs/Attributes.py IndexBuffer'), ('fixup and checksum of log pages', 'dfir_ntfs/LogFile.py UnprotectSectors and page classes')],
     ['FileRecordSegment()', 'IndexBuffer()', 'log RestartPage / LogRecordPage'],
     'All 2^n old/new sector patterns for the listed sizes, all used sizes at sector boundaries, all single-bit changes of protected positions.')

prop('P03', 'Attributes of a file record are enumerated completely and in bounds',
     'For every file record, enumerating its attributes yields each attribute up to the end marker exactly once and in order, with its type, name, instance, flags, sizes and value exactly as stored. '
     'No attribute header, name, value or run list is ever taken from bytes outside of the attribute or beyond the used size of the record: such an attribute ends the enumeration with an error. '
     'The slack space reported for the record is exactly the part after its used size.',
     ['inputs'], 'every list of attributes and every corruption of attribute length, offset and size fields',
     'Tests enumerate attributes of a few well-formed records; damaged length and offset fields are what an attacker or a crash produces.',
     [M], [('attribute walk', 'dfir_ntfs/MFT.py FileRecordSegment.attributes'), ('attribute bounds checks', 'dfir_ntfs/MFT.py AttributeRecordResident, AttributeRecordNonresident')],
     ['FileRecordSegment.attributes()', 'FileRecordSegment.get_slack()'],
     'All attribute lists up to a bound and all combinations of up to 2 (thorough 3) corrupted header fields at boundary values, against an independent walker.')

prop('P04', 'Every file record is assembled from exactly its own segments',
     'For every file table, iterating it yields every valid base record exactly once and in order, each with the attributes of all extension records that belong to it (reference number and sequence number match) and of no other. '
     'A lookup by number succeeds exactly when the record exists, is intact and has the expected sequence number (taking into account that freeing a record increments it), and damaged or missing records never hide or alter others. '
     'A truncated table yields the records it still contains.',
     ['inputs', 'histories'], 'every table over the states a record can be in (base, extension, free, reused, torn, zeroed, damaged)',
     'The sample tables contain one arrangement each; stale references, reused and torn records multiply.',
     [M], [('first pass building the child map', 'dfir_ntfs/MFT.py MasterFileTableParser.execute_first_pass'), ('lookup by number', 'dfir_ntfs/MFT.py MasterFileTableParser.get_file_record_by_number')],
     ['MasterFileTableParser.file_records()', 'get_file_record_by_number()', 'FileRecord.attributes()'],
     'All tables of up to 3 (thorough 4) free slots over 15 record states and all lookups in them, against a reference assembler.')

prop('P05', 'Full paths follow the parent references and lookup by path inverts them',
     'For every directory structure, the full paths built for a file are, one per name, the chain of preferred directory names up to the root; a chain that is broken, stale, cyclic or passes a non-directory is marked as orphaned at that point, and building always terminates. '
     'A lookup by path returns a file reachable by that path (through any of its hard links) when one is in use and returns nothing otherwise, with and without case sensitivity.',
     ['inputs', 'histories'], 'every tree of records with any parent references, name spaces, hard links and deleted or reused parents',
     'Tests look up a few paths of healthy images; stale, missing and cyclic parents need crafted tables.',
     [M], [('path building with cycle tracking', 'dfir_ntfs/MFT.py MasterFileTableParser.build_full_paths'), ('path lookup', 'dfir_ntfs/MFT.py MasterFileTableParser.get_file_record_by_path')],
     ['build_full_paths()', 'get_file_record_by_path()'],
     'All trees of up to 3 records over 52 slot configurations, every existing path and six others looked up five ways; long chains and cycles.')

prop('P06', 'A fragmented file reads as one flat byte string',
     'For every run list, file size and sequence of seek and read operations, a file opened through its runs behaves exactly like an in-memory file with the same content: bytes of each run in order, zeros for sparse runs, positions and results of relative and end-based seeks, short reads at the end and nothing after the file size. '
     'Clusters past the end of the volume or negative seeks are errors, never foreign data.',
     ['inputs', 'programs'], 'every run list up to the bound, file size, volume offset, cluster size and sequence of seeks and reads',
     'Tests read whole sample files front to back; run boundaries met mid-read need every offset and length.',
     [M], [('run-mapped file object', 'dfir_ntfs/MFT.py FragmentedFile')], ['FragmentedFile.read/seek/tell'],
     'All run lists of up to 4 runs over physical and sparse clusters, every (offset, length) pair, and all operation sequences up to depth 4.')

prop('P07', 'The file table is opened from a volume wherever its pieces lie',
     'For every volume geometry (sector size, cluster size, record size, position of the volume in the image) and every layout of the file table (contiguous, fragmented, described by several extension records through a resident or nonresident attribute list), opening the volume yields exactly the records stored in the table, in order. '
     'A damaged boot sector or a table description that is inconsistent is reported as an error, never as wrong records.',
     ['inputs', 'configurations'], 'every geometry, fragmentation and placement of the table description within the bounds',
     'The sample images have one geometry and layout each.',
     [M, 'dfir_ntfs/BootSector.py'], [('opening the table from a volume', 'dfir_ntfs/MFT.py FileSystemParser'), ('geometry', 'dfir_ntfs/BootSector.py BootSector')],
     ['FileSystemParser', 'BootSector'],
     'All geometries of the listed domains, all table splits over up to 4 extents and records, attribute list resident and nonresident, with faults.')

prop('P08', 'Timestamps and decoded attribute fields are exact',
     'Every stored timestamp (NTFS, object identifier, Unix, FAT and exFAT) is converted to the date and time it denotes, to the nearest microsecond (the arithmetic used allows a rounding error of 1 microsecond in the usual range of dates), over the whole representable range; values outside of it are reported as such. '
     'Every field of the standard information, file name, object identifier, volume, reparse point and extended attribute structures is reported with the stored value, and a value too short for the fields of a structure is never reported as that structure.',
     ['inputs'], 'every timestamp value at calendar and width boundaries, and every field position and value of each structure',
     'Tests compare a few dates of sample files.',
     [A, 'dfir_ntfs/WSL.py', FAT, EXFAT], [('timestamp conversion', 'dfir_ntfs/Attributes.py DecodeFiletime, DecodeGUIDTime; WSL.py; addons/FAT.py; addons/exFAT.py'), ('attribute structures', 'dfir_ntfs/Attributes.py StandardInformation, FileName, ObjectID, ReparsePoint')],
     ['DecodeFiletime()', 'DecodeGUIDTime()', 'attribute value getters'],
     'Every calendar day of the range with boundary times of day, all single-bit values, and every structure with a distinct value in every field, cut at every length.')

prop('P09', 'Every USN journal record is found, whatever surrounds it',
     'For every change journal consisting of valid records of any supported version, sparse or zeroed stretches and damaged stretches, iterating it yields every intact record exactly once and in file order, with all of its fields as stored, and never yields a record that is not there. '
     'Reason and source codes are rendered as exactly the set of flags stored.',
     ['inputs', 'histories'], 'every sequence of records, gaps and damage over the block boundaries of the reader',
     'Tests parse three short journals.',
     ['dfir_ntfs/USN.py'], [('journal scan', 'dfir_ntfs/USN.py ChangeJournalParser'), ('record decoders', 'dfir_ntfs/USN.py USN_RECORD_V2_OR_V3, USN_RECORD_V4')],
     ['ChangeJournalParser.usn_records()', 'ResolveReasonCodes()'],
     'All sequences of up to 4 items over records of each version and gap kinds at block boundaries; every field and flag bit.')

prop('P10', 'Every log record between the restart point and the end of the log is found',
     'For every transaction log, iterating its records yields every record reachable from the restart areas, page headers and client restart areas forward, or through the previous and undo links of other records, exactly once and in log sequence order, with header fields and data as written, for records anywhere in a page, spanning pages, and wrapping around the end of the log file, for both log format versions. '
     'A damaged page loses only the records stored in it or reachable only through it, and iteration always terminates.',
     ['inputs', 'histories', 'fault_sequences'], 'every placement of records in the pages of a log, every wrap position and every damaged page',
     'Tests use five sample logs with the placements they happen to have.',
     [L], [('record iteration', 'dfir_ntfs/LogFile.py LogFileParser.log_records, collect_lsns, find_next_lsn'), ('reassembly over pages', 'dfir_ntfs/LogFile.py LogFileParser.get_lsn')],
     ['LogFileParser.parse_ntfs_records()', 'log record getters'],
     'All sequences of record lengths up to the bound in small logs, all start positions including each wrap position, with faults.')

prop('P11', 'The newest intact copy of a log page wins and the input is not modified',
     'For every combination of intact, stale, torn and missing home pages, tail copies and fast pages, and of the two restart pages, the log is read with the newest intact copy of each page (tail copies in version 1, fast pages in version 2 logs), and copies naming an impossible place are ignored. '
     'Older copies never replace newer ones, the log is rejected only when no restart page is intact, and the input file is left unchanged.',
     ['crash_points', 'fault_sequences'], 'every crash state of the page copies and restart pages',
     'Tests read logs in the state they were captured in.',
     [L], [('tail and fast page application', 'dfir_ntfs/LogFile.py LogFileParser.__init__, apply_tail_pages, apply_fast_pages')],
     ['LogFileParser'],
     'All assignments of states to the two tail copies, the fast pages, home pages and restart pages.')

prop('P12', 'Log records name their operation, data and target exactly',
     'For every update record, the redo and undo operations, redo and undo data, target attribute, target offsets and cluster numbers are reported exactly as logged, and data outside of the record is never returned. '
     'The open attribute table entry a record refers to is resolved through the latest applicable table dump or open operation before it, in both table formats (names and entries of one dump belong together, and an entry whose record cannot be read is never replaced by an older one), and the file record number derived from a cluster number and offset is the record the operation changed.',
     ['inputs', 'histories'], 'every layout of redo and undo data in a record and every history of table dumps and open operations',
     'Tests compare output of a few logs.',
     [L], [('update record decoding', 'dfir_ntfs/LogFile.py NTFSLogRecord'), ('open attribute table', 'dfir_ntfs/LogFile.py OpenAttributeTable, LogFileParser.parse_ntfs_records')],
     ['NTFSLogRecord getters', 'parse_ntfs_records()'],
     'All layouts over offset/length boundaries and all histories of up to 4 table operations.')

prop('P13', 'A shadow copy reads as the volume at the time of the snapshot',
     'For every history of snapshots and of block writes with copy-on-write between them (including moved and partially copied blocks, copies of copies, and blocks unused at the time), reading a shadow copy returns for every block exactly the data the volume had when that snapshot was taken, and zeros for blocks recorded as unused and not stored by a later copy. '
     'This holds for every snapshot of a chain and every offset and length of a read. The fields stored with a snapshot (identifiers, position in the stack, commit time, volume size, positions of its blocks) are reported exactly.',
     ['histories', 'programs'], 'every history of snapshot and write operations up to the bound, and every read position',
     'Tests read three small volumes with the histories they were made with.',
     [S], [('block mapping over the chain of stores', 'dfir_ntfs/ShadowCopy.py ShadowParser'), ('block descriptors', 'dfir_ntfs/ShadowCopy.py BlockDescriptor, Store structures')],
     ['ShadowParser.read/seek', 'ShadowCopiesInformation'],
     'All operation histories up to the depth bound over 3 blocks, executed on a snapshot model, encoded on disk and read back through the code.')

prop('P14', 'Reading through one or two volumes gives the same shadow copies',
     'For every set of shadow copies, the parser working on separate (original and store) volumes returns the same bytes as the parser working on a volume that stores its own shadow copies. '
     'Every sequence of snapshot selection, seek and read behaves like the same operations on an in-memory file of the snapshot, with short reads at its end; a volume that has become smaller gives the part that fits.',
     ['programs', 'configurations'], 'every snapshot set within the bounds, both parsers and every sequence of select, seek and read',
     'Tests read whole snapshots sequentially.',
     [S], [('parsers for one and two volumes', 'dfir_ntfs/ShadowCopy.py ShadowParser, ShadowParserTwoVolumes')],
     ['ShadowParser', 'ShadowParserTwoVolumes'],
     'All operation sequences up to depth 4 on both parsers, compared with a byte-array model.')

prop('P15', 'Damaged shadow copy metadata is contained and never loops',
     'For every corruption of a link, size, signature or identifier in the shadow copy metadata, opening and reading terminates: the result is a reported error, an unaffected snapshot, or a snapshot missing the damaged entries, and a failed selection never leaves a mix of two snapshots. '
     'Cyclic chains of metadata blocks are detected.',
     ['inputs', 'fault_sequences'], 'every single corruption of a metadata field (and every link target for link fields)',
     'Tests contain no damaged metadata.',
     [S], [('chained metadata blocks', 'dfir_ntfs/ShadowCopy.py catalog and store block chains')], ['ShadowParser()', 'select_shadow()'],
     'Every link redirected to every block, every header field set to boundary values.')

prop('P16', 'Partition tables list exactly the partitions described by an intact table',
     'For every disk, the partitions reported are exactly those described by an intact partition table, with their positions and sizes in sectors of the given size: a GPT is used only if its header and entry array checksums are right, the backup is used when the primary is damaged, and logical partitions follow the extended chain. '
     'Every chain is followed to its end without looping, and damaged tables are reported instead of guessed.',
     ['inputs', 'fault_sequences'], 'every table content within the bounds, every damaged copy and every chain of extended records',
     'Tests read a few sample tables.',
     ['dfir_ntfs/PartitionTable.py'], [('GPT and MBR parsing', 'dfir_ntfs/PartitionTable.py')], ['PartitionTable.GPT', 'PartitionTable.MBR'],
     'All tables over the slot alphabets, single-byte damage at every position of either GPT copy, all extended chains including cyclic ones.')

prop('P17', 'Move table records are decoded exactly',
     'For every move table, its entries are reported completely and in order with the object identifiers, machine names and volume identifiers stored. '
     'An entry of an unknown kind or a damaged entry is reported as an error (ending the iteration over its sector), and values never come from bytes outside of the entry.',
     ['inputs'], 'every table and every truncation within the bounds',
     'Tests parse one sample table.',
     ['dfir_ntfs/MoveTable.py'], [('tracking log parser', 'dfir_ntfs/MoveTable.py')], ['MoveTable parser'],
     'All tables up to the bound over entry kinds and states.')

prop('P18', 'FAT chains are followed exactly and always end',
     'For every file allocation table of every width (12, 16 and 32 bits), the value read for a cluster is the one stored for it, and following a chain yields its clusters in order up to the end marker. '
     'A chain that is cyclic or meets a free, reserved or bad cluster ends there (a bad cluster reads as zeros), a chain leaving the volume is an error, and following a chain always terminates.',
     ['inputs'], 'every table of up to 5 clusters over all link values, for each width, and every cluster number at sector boundaries',
     'The sample images have sane chains.',
     [FAT], [('table access and chains', 'dfir_ntfs/addons/FAT.py FAT, FileSystemParser.read_chain')], ['FAT.get_element', 'FAT.chain', 'read_chain'],
     'All tables over the link alphabet, all chains from all starts.')

prop('P19', 'FAT directory entries and long names are decoded exactly',
     'For every sequence of directory entries, a short entry preceded by its complete, matching run of long-name entries is reported with that long name, and with its short name alone otherwise; no entry is lost, duplicated or given the name of another. '
     'Long-name entries without their short entry are reported as orphans (unless they hold no characters). Deleted entries are reported as deleted, and attributes, size, cluster and timestamps are those stored.',
     ['inputs', 'histories'], 'every sequence of entries over short, long (right, wrong order, wrong checksum), deleted, label and end entries up to the bound',
     'Tests list sample directories.',
     [FAT], [('directory scan', 'dfir_ntfs/addons/FAT.py DirectoryEntries')], ['DirectoryEntries.entries()'],
     'All sequences of up to 5 entries over the entry alphabet against a reference assembler.')

prop('P20', 'Walking a FAT volume reports every reachable file exactly once and ends',
     'For every FAT volume, walking it reports every entry of every directory reachable from the root once with its full path, marks deleted and orphaned ones as such, and reads file data as the concatenation of its clusters cut to the file size. '
     'An entry leading back to a directory on its own path is skipped; a deleted directory is entered while its first cluster is free, or (when it is in use, was not reached otherwise and still looks like a directory) listed under an orphan path. Directory loops, deep nesting and shared clusters never make the walk fail, endless or lose other entries.',
     ['inputs', 'histories'], 'every directory graph up to the bound, including loops, shared and reallocated clusters',
     'The sample images are healthy or have one anomaly each.',
     [FAT], [('walk', 'dfir_ntfs/addons/FAT.py FileSystemParser.walk')], ['FileSystemParser.walk()', 'read_chain()'],
     'All directory graphs up to the bound for each FAT width, against a reference walker.')

prop('P21', 'exFAT entry sets are reported only when intact, and then exactly',
     'For every directory of an exFAT volume, an entry set is reported with the name, sizes, cluster, flags and timestamps stored exactly when it is complete and its checksum matches (deleted sets: when reconstructible), and damaged sets never contribute names or sizes to others. Name entries outside of a set are reported as orphans, and a name cut to its declared length obeys the same rules as any other.',
     ['inputs', 'fault_sequences'], 'every sequence of entries up to the bound and every single-byte change of a set',
     'Tests list sample directories.',
     [EXFAT], [('directory scan', 'dfir_ntfs/addons/exFAT.py DirectoryEntries')], ['DirectoryEntries.entries()'],
     'All sequences over the entry alphabet and all single-byte changes, against a reference assembler.')

prop('P22', 'Walking an exFAT volume reports every reachable file once, with its data',
     'For every exFAT volume, walking it reports every entry set of every reachable directory once with its full path, reads contiguous and chained data exactly, and reports cluster allocation as stored in the allocation bitmap. '
     'Loops, deep nesting, directories of impossible sizes and short allocation bitmaps never make the walk endless, fail or lose other entries; deleted directories whose clusters are in use are listed under an orphan path as on FAT. The backup boot region is used when the main one is damaged (sectors of 512 and 4096 bytes).',
     ['inputs', 'histories', 'fault_sequences'], 'every directory graph up to the bound, contiguous and chained, with damage to either boot region',
     'The sample images are healthy.',
     [EXFAT], [('walk, chains and bitmap', 'dfir_ntfs/addons/exFAT.py FileSystemParser')], ['FileSystemParser.walk()', 'read_chain()', 'Bitmap'],
     'All directory graphs up to the bound and all damage patterns of the boot regions.')

prop('P23', 'Directory indexes list exactly their entries',
     'For every directory index (root and blocks), enumerating it yields exactly the entries stored up to the end marker, in order and with their file reference, name and child block, and never takes an entry, or an attribute of one, from bytes beyond the used part of the node or beyond the entry; an invalid entry ends the node, and a damaged block is skipped without losing the following ones (the size of blocks being that of the first one). '
     'Entries recovered from the slack of a node or file record are ones whose bytes are really there.',
     ['inputs'], 'every list of index entries and every corruption of their length fields within the bounds',
     'Tests list a few healthy directories.',
     [A, M], [('index walk', 'dfir_ntfs/Attributes.py IndexRoot, IndexBuffer, IndexAllocation'), ('slack carving', 'dfir_ntfs/MFT.py SlackFileRecordSegment and Attributes.py slack carvers')],
     ['IndexRoot.index_entries()', 'IndexAllocation.index_buffers()', 'slack carvers'],
     'All entry lists up to the bound and all slack positions, against a reference walker.')

prop('P24', 'Extended attributes and WSL metadata are decoded exactly',
     'For every packed list of extended attributes, every attribute is reported once and in order with its name, flags and value, and a damaged attribute or a link leaving the buffer ends the list without reporting anything built from bytes of another attribute or beyond the buffer. '
     'The WSL metadata (owner, group, mode, device and times) found in them is reported with the values stored.',
     ['inputs'], 'every list of attributes up to the bound and every corruption of a link or length field',
     'Tests contain two samples.',
     [A, 'dfir_ntfs/WSL.py'], [('EA list walk', 'dfir_ntfs/Attributes.py EA'), ('WSL decoders', 'dfir_ntfs/WSL.py')], ['EA.data_parsed()', 'WSL decoders'],
     'All lists of up to 3 attributes over lengths, and all field corruptions at boundary values.')

prop('P25', 'Volume geometry and FAT type are derived exactly from the boot sector',
     'For every boot sector, the sector, cluster, record and index sizes, positions of the tables, and the FAT type are those the format defines for the stored values, and values the format does not allow are rejected; the other sectors of an exFAT boot region (extended boot signatures, OEM parameters, checksum) are read from the places the sector size defines.',
     ['inputs', 'configurations'], 'every value of each geometry field and all boundary combinations',
     'The sample images have a handful of geometries.',
     ['dfir_ntfs/BootSector.py', FAT, EXFAT], [('boot sector decoding', 'dfir_ntfs/BootSector.py BootSector; addons/FAT.py BSBPB; addons/exFAT.py')], ['BootSector getters', 'BSBPB getters'],
     'Every byte value of the size fields and all combinations of boundary values of the others.')

prop('P26', 'File reports contain one exact row per file name, index entry and record',
     'For every file table and volume given to ntfs_parser (modes --mft, --all-mft and --indx), the CSV report contains exactly one row for every file name of every valid record, index entry and index slack entry, with the fields the library reports (source, record number, sequence numbers, path, sizes, both sets of timestamps, ADS and WSL fields, object ids). '
     'An index entry is attributed to the parent recorded in it. Damaged records and directories whose index cannot be read are skipped without losing the following ones. '
     'With shadow copies, the rows of every snapshot are reported without the duplicates the tool documents to suppress. A stale output file is replaced, wrong usage shows the usage and touches nothing, and the inputs are never modified.',
     ['inputs', 'configurations'], 'every small file table over the record alphabet, every list of file names, every directory index and every snapshot history up to the bound, in each mode of the tool',
     'Tests do not run the command-line tools.',
     ['ntfs_parser'], [('report writers', 'ntfs_parser process_mft, process_all_mft, process_indx')], ['CSV output', 'exit status'],
     'All small tables over the record alphabet, run through the real program in a scratch directory, rows compared with a reference.')

prop('P27', 'Mounted shadow copies are read-only and exact, and evidence is only read',
     'A shadow copy mounted by vsc_mount (modes --mount, --mount-altfill and --mount-two, any volume offset) appears as a directory with exactly one regular file, image.raw, of the size of the volume at the time of the snapshot, whose content at any offset and length is the snapshot (read at its end, it is cut short). '
     'Every request that would change something (opening for writing, creating, writing, renaming, linking, removing, changing attributes) is refused as read-only, in any order of requests, and never changes what later requests return. '
     'With --mount-altfill, unallocated null blocks and blocks with original data read as the documented patterns, and all other data is unchanged. --list prints the stack position and timestamp of every shadow copy, and says so when there are none. '
     'A missing file, mount point or shadow copy is reported and nothing is mounted. No program ever changes its input files.',
     ['programs', 'histories'], 'every sequence of file system requests up to the bound, over every snapshot set',
     'Tests do not exercise the mount program.',
     ['vsc_mount', S], [('file system requests', 'vsc_mount VSCFS')], ['VSCFS request handlers', 'output of --list'],
     'All request sequences up to the depth bound on the real handlers with a stand-in for the FUSE binding.')

prop('P28', 'The memory carver finds every file control block and nothing else',
     'For every memory image, the search for file control blocks looks at every even offset of every 4096-byte page (a last page shorter than 512 bytes is ignored) for the signature, learns the positions of the four timestamps and of the real last access timestamp from the first 100 candidates '
     '(at least 25 are needed, at least 20 of which agree; otherwise ValueError and no results), and then yields every file control block whose five timestamps at these positions are in the plausible range (limits included) and which does not leave its page, in order and exactly once, '
     'with the stored reference number, timestamps and positions, whatever surrounds it. Repeating the search gives the same result, and the report of ntfs_parser --mem has exactly one row for each.',
     ['inputs'], 'every arrangement of timestamp sets, near misses and filler over the pages of the image',
     'No test places structures at page boundaries.',
     [M, 'ntfs_parser'], [('carver', 'dfir_ntfs/MFT.py MetadataCarver')], ['MetadataCarver.carve_fcb_timestamps()', 'report of --mem'],
     'All arrangements of up to 3 items around the page boundary, all boundary values of the timestamps, all layouts and numbers of candidates around the limits.')

prop('P29', 'Damage in evidence is contained',
     'For every single-byte corruption of evidence (file records, index blocks, boot sectors, log files, change journals, tracking logs, FAT and exFAT volumes, shadow copy metadata), the code terminates and either works or reports one of its documented errors (an exception of the package, or ValueError and NotImplementedError raised on purpose), never another error. '
     'Damage in a file record, index block, tracking log entry or subdirectory does not end the report and does not change what is reported for records, entries and directories that do not refer to it; the report of a change journal is the one its bytes denote.',
     ['fault_sequences', 'inputs'], 'every position and a set of replacement values covering boundaries, for each kind of structure',
     'Tests contain almost no damaged structures.',
     [M, A, L, S, 'dfir_ntfs/USN.py', FAT, EXFAT, 'ntfs_parser', 'fat_parser'], [('validation in every decoder', 'all modules')], ['every parser entry point', 'reports'],
     'Every used byte position of each structure replaced by boundary values (all values in the thorough run).')

prop('P30', 'Journal and log reports contain one exact block per record',
     'For every change journal and log file given to ntfs_parser (modes --usn, --log and --move), the report contains exactly one row or block for every valid record, in order, with exactly the fields, target names, decoded attributes and data the record carries, followed by the trailing lists the mode documents. '
     'A record whose data is damaged, cut short or does not denote what the operation code promises is reported without the decoded part and never ends the report or alters the blocks of other records.',
     ['inputs', 'histories'], 'every sequence of records up to the bound over every operation code, target attribute and kind of redo/undo data',
     'Tests do not run the command-line tools.',
     ['ntfs_parser', L, 'dfir_ntfs/USN.py'], [('journal report', 'ntfs_parser process_usn'), ('log report', 'ntfs_parser process_log'), ('move table report', 'ntfs_parser process_movetable')], ['report files', 'exit status'],
     'All operation codes x target attributes x data kinds, and all short sequences of journal records, run through the real program, text compared with a reference.')

prop('P31', 'FAT reports contain one exact row per directory entry',
     'For every FAT12/16/32 and exFAT volume given to fat_parser, the CSV report contains exactly one row for every directory entry the walk reports, in order, with its path, short name, state (allocated, directory, partial name, orphan, encrypted), size, first cluster and timestamps formatted with the time zone recorded in the volume. '
     'A volume that is not FAT is tried as exFAT, and the input is never modified.',
     ['inputs', 'configurations'], 'every small volume over the entry alphabet of FAT12, FAT16, FAT32 and exFAT',
     'Tests do not run the command-line tools.',
     ['fat_parser', FAT, EXFAT], [('report writer', 'fat_parser')], ['CSV output', 'exit status'],
     'All small directories over the entry alphabet on each file system, run through the real program, rows compared with a reference.')

prop('P32', 'Answers do not depend on what was asked before',
     'For every image and every parser of the package (file tables, volumes and fragmented files, change journals, log files, tracking logs, partition tables, FAT and exFAT volumes, shadow copies, memory images), the answer to a question (a lookup, a read, a list of paths, a walk or an iteration) depends only on the bytes of the image and on the arguments: '
     'it is the same whatever was asked before, however often, and whatever other iterations are in progress or were closed early, wherever another user of the same file object has left its position, whatever other parsers exist for the same or for another image, and after requests that failed. '
     'What was returned earlier is not changed by later requests, and every iteration yields the same items when other requests are made between its steps. (Exception: nothing else is asked of a log file parser while its log records are being iterated.)',
     ['histories', 'schedules'], 'all sequences of requests and steps of iterations up to the bound',
     'Tests ask each parser once, in a fixed order.',
     [M, L, S, 'dfir_ntfs/USN.py', 'dfir_ntfs/MoveTable.py', 'dfir_ntfs/PartitionTable.py', FAT, EXFAT], [('state kept between calls', 'file positions, caches and recovered copies in every parser')], ['answers of every parser'],
     'All sessions of up to 3 requests (4 in the thorough run) over 19 images and up to 24 requests each: every answer compared with the answer of a new process which asks only that; all ordered pairs of questions about two images; two shadow copy parsers over one volume, all interleavings of selections, reads and listings.')

prop('P33', 'A read error is reported and leaves nothing behind',
     'For every image, every parser of the package and every read or seek of the underlying file that fails (an OSError raised by the file object, once or for a sector that stays unreadable): the request during which it happens ends with that error; it never returns an answer in which the unreadable data is missing or replaced. '
     'An iteration yields exactly the items it yields without the error up to that place, and then raises the error. Afterwards, when the data can be read, the same parser answers every question as if the error had never happened, and opening the image again works. '
     'Selecting a shadow copy during which an error happens leaves a parser with the old selection, with the new one or with none, never with a mixture. (The position of a file-like object after a failed read is not specified.)',
     ['fault_sequences', 'inputs'], 'every read and seek of every request failing',
     'Tests read intact files only.',
     [M, A, L, S, 'dfir_ntfs/USN.py', 'dfir_ntfs/MoveTable.py', 'dfir_ntfs/PartitionTable.py', FAT, EXFAT], [('reads of evidence', 'every call of read and seek on the file object given to a parser')], ['answers of every parser', 'errors'],
     'Fault injection at every read and seek of every request, iteration and opening over 19 kinds of images, and at every sector; all requests asked again afterwards and compared with the answers of a process without faults; the same for shadow copies in one and two volumes.')


def main():
    mods = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(ROOT, 'mc', 'p[0-9][0-9]_*.py'))}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, note in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, note in P:
        if p['id'] in mods:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check {}'.format(p['id']),
                'thorough_cmd': './check {} --thorough'.format(p['id']),
                'evidence_file': 'evidence/{}.json'.format(p['id']),
                'technique': 'bounded-exhaustive explicit-state exploration of the real code against a reference model',
                'level': 'model_checking',
                'level_note': note + ' Complete within the bounds stated in the evidence file; trusts the reference model and the structure builders in /verif/mc.',
            })
        else:
            na.append({'property': p['id'], 'reason': 'the check is not built yet'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo are needed. See DESIGN.md.'}, f, indent = 1)
        f.write('\n')


main()
