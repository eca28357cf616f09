"""The planted bugs (see seed.py)."""

M, A, L, S = 'dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py', 'dfir_ntfs/LogFile.py', 'dfir_ntfs/ShadowCopy.py'
FAT, EXFAT = 'dfir_ntfs/addons/FAT.py', 'dfir_ntfs/addons/exFAT.py'

SEEDS = []


def seed(id, property, edits, needs, breaks, demo, files = ('ntfs.py',)):
    SEEDS.append(dict(id = id, property = property, edits = edits, needs = needs, breaks = breaks, demo = demo, files = list(files)))


seed('s01-wide-offset-sign', 'P01',
     [(M, "offset = int.from_bytes(offset, byteorder = 'little', signed = True)", "offset = int.from_bytes(offset, byteorder = 'little', signed = offset_length < 5)")],
     'a run whose offset takes five or more bytes and is negative (a file on a volume of over 2^31 clusters, fragmented backwards)',
     'the decoded run list points to clusters far beyond the right ones',
     '''
from dfir_ntfs import MFT
import ntfs
runs = [(0x9000000000, 3), (0x1000, 2), (0x9000000004, 1)]
assert MFT.DecodeMappingPairs(ntfs.mp_encode(runs)) == runs
''')

seed('s02-torn-partly-used-sector', 'P02',
     [(M, "if usa_elements_applied * UPDATE_SEQUENCE_STRIDE < self.get_first_free_byte_offset():", "if (usa_elements_applied + 1) * UPDATE_SEQUENCE_STRIDE <= self.get_first_free_byte_offset():")],
     'an interrupted write leaving an old last sector under a record whose used data ends within that sector',
     'a torn file record is accepted, mixing attributes of two versions',
     '''
from dfir_ntfs import MFT
import ntfs
def rec(c, usn):
    return ntfs.frs([ntfs.attr_resident(ntfs.SI, ntfs.v_standard_information()), ntfs.attr_resident(ntfs.DATA, c * 500)], number = 30, usn = usn)
new, old = rec(b'N', 8), rec(b'O', 7)
torn = new[:512] + old[512:]
try:
    r = MFT.FileRecordSegment(torn)
except MFT.MasterFileTableException:
    pass
else:
    raise SystemExit('a torn record was accepted')
assert [a.value for a in MFT.FileRecordSegment(new).attributes()][1] == b'N' * 500
''')

seed('s03-value-crosses-attribute', 'P03',
     [(M, "if value_offset + value_length > record_length or (name_length == 0 and value_offset < 24)", "if pos + value_offset + value_length > self.get_first_free_byte_offset() or (name_length == 0 and value_offset < 24)")],
     'a resident attribute whose value length exceeds the attribute but not the record',
     'the value of an attribute includes bytes of the following attribute',
     '''
from dfir_ntfs import MFT
import ntfs, struct
a = bytearray(ntfs.attr_resident(ntfs.DATA, b'abc', name = 'one'))
a[16:20] = struct.pack('<L', 40)
f = ntfs.frs([ntfs.attr_resident(ntfs.SI, ntfs.v_standard_information()), bytes(a), ntfs.attr_resident(ntfs.DATA, b'secret of another stream', name = 'two')], number = 30)
vals = []
try:
    for x in MFT.FileRecordSegment(f).attributes():
        vals.append(x)
except MFT.MasterFileTableException:
    pass
else:
    raise SystemExit('no error')
assert len(vals) == 1
''')

seed('s04-freed-sequence-wrap', 'P04',
     [(M, """				if not frs.is_in_use(): # The sequence number is incremented each time a file record segment is deallocated (and the new sequence number can be zero).
					if sequence_number >= 2:
						sequence_number -= 1
					elif sequence_number == 0:
						sequence_number = 0xFFFF # Handle the overflow.
					# When a file record segment is allocated, the existing sequence number is used, if it is not equal to zero (if it is, then the sequence number is set to one).
					# Some sources state something different from that.

				reference = EncodeFileRecordSegmentReference""",
       """				if not frs.is_in_use() and sequence_number > 1: # The sequence number is incremented each time a file record segment is deallocated.
					sequence_number -= 1

				reference = EncodeFileRecordSegmentReference""")],
     'a deleted file with extension records whose sequence number wrapped from 65535 to 0 when it was freed',
     'iterating the table loses the attributes kept in the extension records of that file',
     '''
import io
from dfir_ntfs import MFT
import ntfs
table = [ntfs.system_frs(i) for i in range(16)]
table.append(ntfs.frs([ntfs.attr_resident(ntfs.SI, ntfs.v_standard_information())], number = 16, seq = 0, flags = 0))
table.append(ntfs.frs([ntfs.attr_resident(ntfs.DATA, b'child')], number = 17, seq = 3, flags = 0, base = ntfs.ref(16, 0xFFFF)))
mft = MFT.MasterFileTableParser(io.BytesIO(b''.join(table)))
got = [r for r in mft.file_records() if r.get_master_file_table_number() == 16]
assert len(got) == 1
assert [a.type_code for a in got[0].attributes()] == [0x10, 0x80]
''')

seed('s05-cycle-behind-start', 'P05',
     [(M, """							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
							break
						else:
							track.add(parent_segment_number)
""", """							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
							break

						if len(path_components) == 2:
							track.add(parent_segment_number)
""")],
     'a file whose parent chain enters a cycle at the third directory or later',
     'building the path of the file never ends',
     '''
import io, resource
resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
from dfir_ntfs import MFT
import ntfs
def d(n, parent, flags = 3):
    return ntfs.frs([ntfs.attr_resident(ntfs.FN, ntfs.v_file_name(ntfs.ref(parent, 1), 'n%d' % n))], number = n, seq = 1, flags = flags)
table = [ntfs.system_frs(i) for i in range(16)] + [d(16, 17, 1), d(17, 18), d(18, 19), d(19, 20), d(20, 19)]
mft = MFT.MasterFileTableParser(io.BytesIO(b''.join(table)))
class Stop(Exception): pass
import signal
def h(*a): raise Stop()
signal.signal(signal.SIGALRM, h); signal.alarm(10)
p = mft.build_full_paths(mft.get_file_record_by_number(16))
assert len(p) == 1 and p[0].startswith('<Orphan>'), p
''')

seed('s06-failed-seek-moves', 'P06',
     [(M, """			self.current_offset_in_file = old_offset_in_file # Restore the old offset.
			raise ValueError('Negative seek value')""", """			self.current_offset_in_file = 0
			raise ValueError('Negative seek value')""")],
     'a seek to a negative position that fails, followed by a read from the current position',
     'the read returns bytes of the start of the file instead of the current position',
     '''
import io
from dfir_ntfs import MFT
vol = io.BytesIO(bytes(range(256)) * 16)
f = MFT.FragmentedFile(vol, 0, 512, [(3, 1), (1, 2)], 1500)
whole = f.read()
f.seek(700)
try:
    f.seek(-701, 1)
except ValueError:
    pass
assert f.tell() == 700
assert f.read(20) == whole[700:720]
''')

seed('s07-attribute-list-volume-offset', 'P07',
     [(M, "attr_list = attr.value_decoded(self.volume_object, self.volume_offset, self.cluster_size)", "attr_list = attr.value_decoded(self.volume_object, 0, self.cluster_size)")],
     'an extremely fragmented file table (nonresident attribute list) on a volume that does not start at offset 0 of the image',
     'the file table of the volume cannot be opened (or is assembled from foreign data)',
     '''
import io
from dfir_ntfs import MFT
import ntfs
CL = 1024
table = [ntfs.system_frs(i) for i in range(20)]
alist = ntfs.v_attr_list([(0x10, None, 0, ntfs.ref(0, 1), 0), (0x80, None, 0, ntfs.ref(0, 1), 1), (0x80, None, 18, ntfs.ref(17, 1), 1)])
size = 20 * 1024
table[0] = ntfs.frs([ntfs.attr_resident(0x10, ntfs.v_standard_information()),
                     ntfs.attr_nonresident(0x20, ntfs.mp_encode([(60, 1)]), 0, 0, len(alist), allocated = 1024),
                     ntfs.attr_nonresident(0x80, ntfs.mp_encode([(10, 18)]), 0, 17, size)], number = 0, seq = 1)
table[17] = ntfs.frs([ntfs.attr_nonresident(0x80, ntfs.mp_encode([(40, 2)]), 18, 19, 0)], number = 17, seq = 1, base = ntfs.ref(0, 1))
vol = bytearray(100 * CL)
vol[:512] = ntfs.boot_sector(512, 2, 200, 10, 5)
vol[60 * CL:60 * CL + len(alist)] = alist
for i, r in enumerate(table):
    c = 10 + i if i < 18 else 40 + i - 18
    vol[c * CL:(c + 1) * CL] = r
for off in (0, 63 * 512):
    f = MFT.FileSystemParser(io.BytesIO(b'\\x00' * off + bytes(vol)), off)
    assert f.read() == b''.join(table)
''')

seed('s09-skip-zeros-unaligned', 'P09',
     [('dfir_ntfs/USN.py', "			tmp_buf = buf\n			if tmp_buf.lstrip(b'\\x00') == b'':", "			tmp_buf = buf.lstrip(b'\\x00') # Skip the zeroed (sparse) data before the next record.\n			if tmp_buf == b'':"),
      ('dfir_ntfs/USN.py', "new_pos_aligned = new_pos - new_pos % 8", "new_pos_aligned = new_pos + 8 - new_pos % 8")],
     'a record whose length is a multiple of 256 after a zeroed stretch of the journal',
     'that record is skipped',
     '''
import io, struct
from dfir_ntfs import USN
def v2(name, usn):
    nm = name.encode('utf-16le')
    n = (60 + len(nm) + 7) // 8 * 8
    b = struct.pack('<LHHQQQQLLLLHH', n, 2, 0, 5, 6, usn, 0x01D0000000000000, 1, 0, 7, 0x20, len(nm), 60) + nm
    return b.ljust(n, b'\\x00')
j = b'\\x00' * 4096 + v2('a', 1) + b'\\x00' * 4096 + v2('b' * 98, 2) + v2('c', 3)
got = [r.get_usn() for r in USN.ChangeJournalParser(io.BytesIO(j)).usn_records()]
assert got == [1, 2, 3], got
''', files = ())

PT, MT, BS, USNF, NP, FP, VM = 'dfir_ntfs/PartitionTable.py', 'dfir_ntfs/MoveTable.py', 'dfir_ntfs/BootSector.py', 'dfir_ntfs/USN.py', 'ntfs_parser', 'fat_parser', 'vsc_mount'

seed('s08-negative-filetime', 'P08',
     [(A, "		return datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds = Timestamp / 10)",
          "		if Timestamp > 0x7FFFFFFFFFFFFFFF: # A signed value.\n			Timestamp -= 1 << 64\n\n		return datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds = Timestamp / 10)")],
     'a timestamp in the upper half of the 64-bit range (an invalid one, or a wiped one)',
     'an invalid timestamp is reported as a date (near the year 1600) instead of none',
     '''
from dfir_ntfs import Attributes
import ntfs, datetime
v = ntfs.v_standard_information(c = 0xFFFFFFFFFFFF0000, m = 132000000000000000, e = 132000000000000000, a = 132000000000000000)
si = Attributes.StandardInformation(v)
assert si.get_ctime() is None, si.get_ctime()
assert si.get_mtime() == datetime.datetime(2019, 4, 17, 18, 40)
''')

seed('s10-exact-log-end', 'P10',
     [(L, "				if log_page_number * self.log_page_size >= self.file_size:\n					log_page_number = self.get_wrapped_log_record_page_number()",
          "				if log_page_number * self.log_page_size > self.file_size:\n					log_page_number = self.get_wrapped_log_record_page_number()")],
     'a log record that starts in the last page of the log and ends in the first one',
     'the data of that record is cut at the end of the log (and its operation is lost or damaged)',
     '''
import io, lfs
from dfir_ntfs import LogFile
log = lfs.Log(pages = 3, start = 2)
a = log.append(lfs.client_record(b'first'))
b = log.append(lfs.client_record(bytes(range(256)) * 20))
c = log.append(lfs.client_record(b'third'))
img = log.image(log.restart_page(clients = [(a.lsn, 0)]))
got = {r.lsn: r.get_redo_data() for r in LogFile.LogFileParser(io.BytesIO(img)).parse_ntfs_records() if type(r) is LogFile.NTFSLogRecord}
assert got == {a.lsn: b'first', b.lsn: bytes(range(256)) * 20, c.lsn: b'third'}, sorted(got)
''', files = ('ntfs.py', 'lfs.py'))

seed('s11-fast-pages-by-place', 'P11',
     [(L, "fast_pages.sort(key = lambda x: x.get_last_lsn())", "fast_pages.sort(key = lambda x: x.get_file_offset_2x())")],
     'two fast copies of one page, the newer one in front of the older one',
     'the older copy replaces the newer one and the newest records are lost',
     '''
import io, lfs
from dfir_ntfs import LogFile
log = lfs.Log(version = (2, 0))
a = log.append(lfs.client_record(b'A' * 100))
home = log.snapshot(log.cur)
b = log.append(lfs.client_record(b'B' * 100))
older = log.snapshot(log.cur)
c = log.append(lfs.client_record(b'C' * 100))
newer = log.snapshot(log.cur)
def page(s, fast = None):
    return log.page_bytes(log.cur, s[0], s[1], fast = fast)
for first, second in ((older, newer), (newer, older)):
    img = log.image(log.restart_page(clients = [(a.lsn, 0)]), replace = {2: page(first, log.cur * lfs.PAGE), 3: page(second, log.cur * lfs.PAGE), log.cur: page(home)})
    got = {r.lsn for r in LogFile.LogFileParser(io.BytesIO(img)).parse_ntfs_records() if type(r) is LogFile.NTFSLogRecord}
    assert c.lsn in got, 'the newest record is lost'
''', files = ('ntfs.py', 'lfs.py'))

seed('s12-shared-attribute-table', 'P12',
     [(L, "						client_data_decoded.oat = oat.copy()", "						client_data_decoded.oat = oat")],
     'a caller that keeps the records of a log, in which an index of the open attribute table is used again for another file',
     'the target of earlier records changes to the file opened later',
     '''
import io, lfs, struct
from dfir_ntfs import LogFile
import ntfs
log = lfs.Log(pages = 4)
rs = log.append(lfs.client_restart(1, 0), type = 2)
recs = []
for n in (40, 41):
    raw = struct.pack('<LLLLQ', 0xffffffff, 0, 0x80, 0, ntfs.ref(n, 1)).ljust(44, b'\\x00')
    recs.append(log.append(lfs.client_record(raw, redo_op = 0x1c, undo_op = 0, target = 0x18)))
    recs.append(log.append(lfs.client_record(b'x' * 8, redo_op = 8, undo_op = 0, target = 0x18, lcns = (5,))))
img = log.image(log.restart_page(clients = [(rs.lsn, rs.lsn)]))
items = [r for r in LogFile.LogFileParser(io.BytesIO(img)).parse_ntfs_records() if type(r) is LogFile.NTFSLogRecord]
now = []
for r in LogFile.LogFileParser(io.BytesIO(img)).parse_ntfs_records():
    if type(r) is LogFile.NTFSLogRecord:
        now.append(r.calculate_mft_target_reference_and_name())
later = [r.calculate_mft_target_reference_and_name() for r in items]
assert now == later, (now, later)
assert len(set(now)) > 1
''', files = ('ntfs.py', 'lfs.py'))

VSS_DEMO = '''
import io, vss
from dfir_ntfs import ShadowCopy
def build(ops):
    m = vss.Model(3, (1, 2))
    for op in ops.split():
        assert m.apply(op)
    return m
def verify(p, m):
    for s in m.stores:
        p.select_shadow(10 + s.number)
        for x in range(1, m.n + 1):
            p.seek(x * vss.BLOCK)
            got = p.read(vss.BLOCK)
            for i, w in enumerate(m.expected(s.number, x)):
                assert w is None or got[i * 512:i * 512 + 512] == w, (s.number, x, i)
'''

seed('s13-last-overlay-only', 'P13',
     [(S, "						cumulative_allocation_bitmap |= table_entry.allocation_bitmap # Extend the cumulative allocation bitmap.",
          "						cumulative_allocation_bitmap = table_entry.allocation_bitmap # Update the cumulative allocation bitmap.", 0)],
     'a block of a snapshot with two overlay entries (written to twice, in different parts) followed by a regular entry',
     'parts written first read as the data of the regular entry',
     VSS_DEMO + '''
m = build('s o1a o1b w1 w1')
vol, _ = vss.encode(m, total = 256)
verify(ShadowCopy.ShadowParser(vss.Image(vol, 256 * vss.BLOCK)), m)
''', files = ('vss.py',))

seed('s14-next-store-overlay', 'P14',
     [(S, "			return self.current_next_parser.translate_exact_offset(offset, True, do_forward_lookup)", "			return self.current_next_parser.translate_exact_offset(offset, do_forward_lookup, do_forward_lookup)", 1)],
     'two snapshots with their data on another volume and a block whose sectors were saved partially for the newer one',
     'the older snapshot has sectors of the newer one',
     VSS_DEMO + '''
import itertools
for ops in itertools.product(('s', 'w1', 'o1a', 'o1b'), repeat = 5):
    try:
        m = build('s ' + ' '.join(ops))
    except Exception:
        continue
    vol, st = vss.encode(m, two = True, total = 256)
    verify(ShadowCopy.ShadowParserTwoVolumes(vss.Image(vol, 256 * vss.BLOCK), vss.Image(st, 256 * vss.BLOCK), 0, None, 0), m)
''', files = ('vss.py',))

seed('s15-half-lost-store', 'P15',
     [(S, "		if cnt_3 != cnt_2:", "		if cnt_3 > cnt_2:", 0)],
     'two snapshots, the newer of which lost one of its two control items',
     'the older snapshot silently reads as the present volume where the newer one held its data',
     VSS_DEMO + '''
m = build('s s w1')
vol, _ = vss.encode(m, total = 256)
c = [b for b, d in vol.items() if b >= vss.META and d[:16] == vss.GUID and d[20:24] == b'\\x02\\x00\\x00\\x00']
assert len(c) == 1
d = bytearray(vol[c[0]])
for i in range(0x80, vss.BLOCK, 0x80):
    if d[i:i + 4] == b'\\x03\\x00\\x00\\x00' and d[i + 16:i + 32] == vss.guid(1).bytes_le:
        d[i:i + 0x80] = b'\\x01'.ljust(0x80, b'\\x00')
vol[c[0]] = bytes(d)
p = ShadowCopy.ShadowParser(vss.Image(vol, 256 * vss.BLOCK))
try:
    p.select_shadow(10)
    p.seek(vss.BLOCK)
    got = p.read(vss.BLOCK)
except ShadowCopy.ShadowCopyException:
    pass
else:
    assert got == vss.data(1), 'data of the present volume in an old snapshot'
''', files = ('vss.py',))

seed('s16-wide-entries', 'P16',
     [(PT, "			buf_part = buf[i * size_of_partition_entry : i * size_of_partition_entry + 128]", "			buf_part = buf[i * 128 : i * 128 + 128]")],
     'a GPT with entries of 256 bytes and more than one partition',
     'only a part of the partitions is listed, mixed with unused space',
     '''
import io, struct, uuid, binascii
from dfir_ntfs import PartitionTable
SEC = 512
def ent(n):
    return struct.pack('<16s16sQQQ72s', uuid.UUID(int = 7).bytes_le, uuid.UUID(int = 100 + n).bytes_le, 40 + 10 * n, 49 + 10 * n, 0, ('p%d' % n).encode('utf-16le')).ljust(256, b'\\x00')
array = b"".join(ent(n) for n in range(6)).ljust(256 * 8, b'\\x00')
def header(cur, alt, lba):
    h = struct.pack('<8sLLLLQQQQ16sQLLL', b'EFI PART', 0x10000, 92, 0, 0, cur, alt, 34, 180, uuid.UUID(int = 9).bytes_le, lba, 8, 256, binascii.crc32(array))
    return (h[:16] + struct.pack('<L', binascii.crc32(h)) + h[20:]).ljust(SEC, b'\\x00')
img = bytearray(200 * SEC)
img[446:462] = struct.pack('<B3sB3sLL', 0, b'', 0xee, b'', 1, 199)
img[510:512] = b'\\x55\\xaa'
img[SEC:2 * SEC] = header(1, 199, 2)
img[2 * SEC:2 * SEC + len(array)] = array
img[199 * SEC:] = header(199, 1, 190)
img[190 * SEC:190 * SEC + len(array)] = array
got = [p.starting_lba for p in PartitionTable.GPT(io.BytesIO(bytes(img)), SEC).read_gpt_partitions(2, 8, 256, binascii.crc32(array))]
assert got == [40 + 10 * n for n in range(6)], got
''', files = ())

seed('s17-machine-name-tail', 'P17',
     [(MT, "		machine_id_raw = self.buf[68 : 84]\n\n		# Convert the machine ID from a null-terminated string into a usual string.\n		null_pos = machine_id_raw.find(b'\\x00')\n		if null_pos != -1:\n			machine_id_raw = machine_id_raw[ : null_pos]",
           "		machine_id_raw = self.buf[68 : 84]\n\n		# Convert the machine ID from a null-terminated string into a usual string.\n		machine_id_raw = machine_id_raw.rstrip(b'\\x00')")],
     'a machine name shorter than the one previously stored in the field',
     'the rest of another machine name is reported as a part of the name',
     '''
from dfir_ntfs import MoveTable
for n in (b'PC', b'LONGERNAME', b'EXACTLY16BYTES00'):
    raw = bytearray(124)
    raw[8] = 1
    raw[68:84] = b'OLDMACHINE-NAME0'
    raw[68:84] = (n + b'\\x00' + bytes(raw[68 + len(n) + 1:84]))[:16]
    e = MoveTable.LogEntry(bytes(raw))
    assert e.get_machine_id_raw() == n, e.get_machine_id_raw()
''', files = ())

seed('s18-mask-in-chain', 'P18',
     [(FAT, "				next_cluster = struct.unpack('<L', next_element_raw)[0] & 0x0FFFFFFF # The high 4 bits are reserved.", "				next_cluster = struct.unpack('<L', next_element_raw)[0]"),
      (FAT, "			next_cluster = self.get_element(curr_cluster)\n", "			next_cluster = self.get_element(curr_cluster)\n			if self.fat_element_size == 4:\n				next_cluster &= 0x0FFFFFFF # The high 4 bits are reserved.\n")],
     'a free FAT32 cluster whose reserved upper bits are set',
     'the cluster is taken for allocated (deleted directories there are not recovered)',
     '''
import fat
from dfir_ntfs.addons import FAT
v = fat.Volume(32)
for n, x in ((2, 0xf0000003), (3, 0x7fffffff), (4, 0xa0000000), (5, 0x10000006)):
    v.link(n, x)
f = FAT.FileSystemParser(v.image())
assert f.fat.chain(2) == [2, 3]
assert [f.fat.is_allocated(n) for n in (2, 3, 4, 5, 6)] == [True, True, False, True, False]
''', files = ('fat.py', 'image.py'))

seed('s19-headless-long-name', 'P19',
     [(FAT, "prev_long_checksum == BuildChecksum(short_name_raw) and get_real_long_order_number(prev_long_order) == 1:", "prev_long_checksum == BuildChecksum(short_name_raw):")],
     'a long name whose first piece was overwritten, before the short name entry it belongs to',
     'a file is reported under the tail of its long name',
     '''
import fat
from dfir_ntfs.addons import FAT
name = 'A rather long name of a file.txt'
e = fat.long_entries(name, b'ARATHE~1TXT')
assert len(e) == 3
buf = (b''.join(e[:-1]) + fat.short(b'ARATHE~1TXT') + b''.join(e) + fat.short(b'ARATHE~1TXT')).ljust(512, b'\\x00')
got = [(type(x).__name__, getattr(x, 'long_name', None)) for x in FAT.DirectoryEntries(buf).entries()]
assert got == [('OrphanLongEntry', None), ('FileEntry', None), ('FileEntry', name)], got
''', files = ('fat.py', 'image.py'))

seed('s20-orphans-end-at-damage', 'P20',
     [(FAT, "				except (FileSystemException, ValueError):\n					continue\n\n				if len(buf) < 512 or", "				except (FileSystemException, ValueError):\n					break\n\n				if len(buf) < 512 or")],
     'several orphan directories, one of which cannot be read (its chain leads out of the table)',
     'the other orphan directories are not reported',
     '''
import fat
from dfir_ntfs.addons import FAT
v = fat.Volume(32)
def d(*e):
    return b''.join(e).ljust(512, b'\\x00')
v.link(2, fat.EOC[32])
v.data[2] = d(*[fat.short(bytes([0xe5]) + b'DIR%d      ' % n, attr = 0x10, cluster = n) + b'' for n in (5, 6, 7)][:3]) if False else d(*[fat.short((b'\\xe5DIR%d' % n).ljust(11), attr = 0x10, cluster = n) for n in (5, 6, 7)])
for n in (5, 6, 7):
    v.data[n] = d(fat.short(b'.          ', attr = 0x10, cluster = n), fat.short(b'..         ', attr = 0x10), fat.short((b'FILE%d' % n).ljust(11), cluster = 0))
    v.link(n, fat.EOC[32])
v.link(5, 900)
got = sorted(x.short_name for x in FAT.FileSystemParser(v.image()).walk() if 'FILE' in x.short_name)
assert got == ['<Orphan directory 6>/FILE6', '<Orphan directory 7>/FILE7'], got
''', files = ('fat.py', 'image.py'))

seed('s21-skip-damaged-set', 'P21',
     [(EXFAT, "set_checksum != EntrySetChecksum(self.clusters_buf[pos : pos + 32] + secondary_buf): # Entry set is allocated, but it is invalid, skip it.\n						pos += 32\n",
              "set_checksum != EntrySetChecksum(self.clusters_buf[pos : pos + 32] + secondary_buf): # Entry set is allocated, but it is invalid, skip it.\n						pos += 32 + secondary_count * 32\n")],
     'an entry set whose count of secondary entries was damaged (it covers the following set)',
     'the intact set after it is not reported',
     '''
import exfat
from dfir_ntfs.addons import exFAT
a, b = bytearray(exfat.file_set('first.txt')), exfat.file_set('second.txt')
a[1] = 5
buf = (bytes(a) + b).ljust(512, b'\\x00')
got = [x.name for x in exFAT.DirectoryEntries(buf, False).entries() if type(x) is exFAT.FileEntry]
assert got == ['second.txt'], got
''', files = ('exfat.py', 'image.py'))

seed('s22-any-bitmap', 'P22',
     [(EXFAT, "			if type(entry) is AllocationBitmapEntry and entry.bitmap_id == active_fat:", "			if type(entry) is AllocationBitmapEntry and (entry.bitmap_id == active_fat or active_fat):")],
     'a volume with two allocation tables (TexFAT), the second being active, with differing bitmaps',
     'the state of clusters is taken from the inactive bitmap',
     '''
import exfat
from dfir_ntfs.addons import exFAT
v = exfat.Volume(fats = 2, active = 1)
for n in (2, 3, 5):
    v.link(n, exfat.EOC)
v.allocate(2, 3, 5)
v.bits[0].add(9)
v.bits[1].add(10)
v.data[5] = v.root_entries().ljust(512, b'\\x00')
f = exFAT.FileSystemParser(v.image())
assert [f.bm.is_allocated(n) for n in (5, 9, 10)] == [True, False, True]
''', files = ('exfat.py', 'image.py'))

seed('s23-index-ends-at-torn', 'P23',
     [(A, "				if index_buf is not None:\n					yield IndexBuffer(index_buf)\n", "				if index_buf is None:\n					break\n\n				yield IndexBuffer(index_buf)\n")],
     'a directory with an unused or torn index buffer (not the first one) before intact ones',
     'entries in the buffers after it are not listed',
     '''
import io
from dfir_ntfs import Attributes, MFT
import ntfs
def block(vcn, name):
    e = ntfs.index_entry(ntfs.ref(40 + vcn, 1), ntfs.v_file_name(ntfs.ref(5, 5), name))
    return ntfs.protect(ntfs.index_buffer_raw([e, ntfs.index_entry(0, b'', 2)], vcn = vcn))
data = block(0, 'a') + bytes(4096) + block(2, 'c')
f = MFT.FragmentedFile(io.BytesIO(data), 0, 4096, [(0, 3)], len(data))
got = []
for b in Attributes.IndexAllocation(f).index_buffers():
    for e in b.index_entries():
        got.append(Attributes.FileName(e.get_attribute()).get_file_name())
assert got == ['a', 'c'], got
''')

seed('s24-short-last-ea', 'P24',
     [(A, "			if len(buf) <= 8:", "			if len(buf) <= 16:")],
     'a list of extended attributes which ends with a short one (a name and a value of a few bytes)',
     'the last extended attribute is not reported',
     '''
import struct
from dfir_ntfs import Attributes
def ea(name, value, last):
    b = struct.pack('<LBBH', 0, 0, len(name), len(value)) + name + b'\\x00' + value
    n = (len(b) + 3) // 4 * 4
    return struct.pack('<L', n) + b[4:].ljust(n - 4, b'\\x00')
for value in (b'12345678901', b'1'):
    buf = ea(b'LONGNAME', b'x' * 20, False) + ea(b'AB', value, True)
    got = [(x.name if hasattr(x, 'name') else x[0], x.value if hasattr(x, 'value') else x[1]) for x in [tuple(t) for t in Attributes.EA(buf).data_parsed()]]
    assert len(got) == 2, got
''')

seed('s25-part-of-root-sector', 'P25',
     [(FAT, "RootDirSectors = (BSBPB.get_bpb_rootentcnt() * 32 + BSBPB.get_bpb_bytspersec() - 1) // BSBPB.get_bpb_bytspersec()", "RootDirSectors = BSBPB.get_bpb_rootentcnt() * 32 // BSBPB.get_bpb_bytspersec()")],
     'a root directory that does not fill its last sector, and a count of clusters next to a limit between the types',
     'the count of clusters is one too large and a FAT12 volume is read as FAT16',
     '''
import struct
from dfir_ntfs.addons import FAT
def boot(root, total):
    b = bytearray(512)
    b[0:3] = b'\\xEB\\x3C\\x90'
    b[11:13] = struct.pack('<H', 512)
    b[13] = 1
    b[14:16] = struct.pack('<H', 1)
    b[16] = 2
    b[17:19] = struct.pack('<H', root)
    b[19:21] = struct.pack('<H', total)
    b[21] = 0xF8
    b[22:24] = struct.pack('<H', 16)
    b[510:512] = b'\\x55\\xAA'
    return FAT.BSBPB(bytes(b))
for root, sectors in ((512, 32), (500, 32), (16, 1), (17, 2), (1, 1)):
    for clusters in (4000, 4084, 4085, 5000):
        assert FAT.GetCountOfClusters(boot(root, 33 + sectors + clusters)) == clusters, (root, clusters)
        assert FAT.IsFileSystem12(boot(root, 33 + sectors + clusters), True) == (clusters < 4085)
''', files = ())

seed('s26-slack-parent-reused', 'P26',
     [(NP, "mft.get_file_record_by_number(parent_fr_number, parent_fr_sequence)", "mft.get_file_record_by_number(parent_fr_number)")],
     'a file name in slack space whose parent directory was deleted and its record used again for something else',
     'the file is reported in a directory it was never in',
     '''
import subprocess, tempfile, shutil, sys, os, csv
import ntfs
def name(parent, text):
    t = 132000000000000000
    return ntfs.v_file_name(parent, text, c = t, m = t, e = t, a = t)
recs = [ntfs.system_frs(n) for n in range(16)]
recs += [bytes(1024)] * 8
recs.append(ntfs.frs([ntfs.attr_resident(0x30, name(ntfs.ref(5, 5), 'reused'))], number = 24, seq = 3, flags = 3))
for seq in (3, 2):
    recs.append(ntfs.frs([ntfs.attr_resident(0x30, name(ntfs.ref(5, 5), 'holder'))], number = len(recs), seq = 1, slack = name(ntfs.ref(24, seq), 'ghost%d' % seq) + b'\\x00' * 8))
d = tempfile.mkdtemp()
try:
    open(d + '/mft', 'wb').write(b''.join(recs))
    subprocess.check_call([sys.executable, 'ntfs_parser', '--mft', d + '/mft', d + '/out'])
    paths = [r[5] for r in csv.reader(open(d + '/out', newline = '', encoding = 'utf-8'))]
finally:
    shutil.rmtree(d)
assert '/reused/ghost3' in paths and '<Unknown>/ghost2' in paths and '/reused/ghost2' not in paths, paths
''')

seed('s27-stale-position', 'P27',
     [(VM, "		self._vss.seek(off)\n		return", "		if off > 0 or size > 512:\n			self._vss.seek(off)\n\n		return")],
     'a small read at the start of the image after a read elsewhere',
     'data of another place is returned',
     '''
import sys, types, tempfile, shutil, os, io
import vss
err = type('FUSEError', (Exception,), {})
got = {}
def init(fs, *a):
    got['fs'] = fs
def run(**k):
    fs = got['fs']
    a = fs.read(2, 0, 512)
    fs.read(2, 3 * vss.BLOCK, 4096)
    got['same'] = fs.read(2, 0, 512) == a and a[3:7] == b'NTFS'
sys.modules['llfuse'] = types.SimpleNamespace(Operations = object, ROOT_INODE = 1, FUSEError = err, default_options = set(), init = init, main = run, close = lambda *a, **k: None, EntryAttributes = object)
m = vss.Model(3, (1, 2))
for op in ('s', 'w1', 'w2'):
    m.apply(op)
vol, _ = vss.encode(m, total = 64)
d = tempfile.mkdtemp()
try:
    open(d + '/img', 'wb').write(vss.Image(vol, 64 * vss.BLOCK).read())
    sys.argv = ['vsc_mount', '--mount', d + '/img', '0', '10', d]
    exec(compile(open('vsc_mount').read(), 'vsc_mount', 'exec'), {'__name__': '__main__'})
finally:
    shutil.rmtree(d)
assert got['same'], 'another place was read'
''', files = ('vss.py',))

seed('s28-skip-whole-block', 'P28',
     [(M, "						fcb_pos += relative_pos_atime_real + 8 # Skip the current file control block and go ahead.", "						fcb_pos += relative_pos_atime_real + 64 # Skip the current file control block and go ahead.")],
     'file control blocks lying close to each other in a page of memory',
     'every second one is not reported',
     '''
import io, struct
from dfir_ntfs import MFT
def T(n):
    return 132000000000000000 + n * 10000000
sig = MFT.FILE_CONTROL_BLOCK_SIGNATURE
def fcb(n):
    b = bytearray(144)
    b[0:2] = sig
    b[8:16] = struct.pack('<Q', (1 << 48) + n)
    for i in range(4):
        b[64 + 8 * i:72 + 8 * i] = struct.pack('<Q', T(5 * n + i))
    b[136:144] = struct.pack('<Q', T(5 * n + 4))
    return bytes(b)
img = b''.join(b''.join(fcb(28 * p + i) for i in range(28)).ljust(4096, b'\\x00') for p in range(3))
refs = {x.possible_file_reference & 0xFFFFFFFF for x in MFT.MetadataCarver(io.BytesIO(img)).carve_fcb_timestamps()}
assert refs == set(range(84)), len(refs)
''', files = ())

seed('s29-report-ends-at-damage', 'P29',
     [(NP, "		except MFT.MasterFileTableException:\n			continue\n\n		attr_standard_information = None", "		except MFT.MasterFileTableException:\n			break\n\n		attr_standard_information = None")],
     'a file record whose attributes are damaged (with an intact header and fixups)',
     'the report ends at the damaged record',
     '''
import subprocess, tempfile, shutil, sys, csv
import ntfs
recs = [ntfs.system_frs(n) for n in range(16)] + [bytes(1024)] * 8
for k in range(4):
    b = ntfs.frs([ntfs.attr_resident(0x10, ntfs.v_standard_information()), ntfs.attr_resident(0x30, ntfs.v_file_name(ntfs.ref(5, 5), 'file%d' % k))], number = 24 + k)
    if k == 1:
        b = bytearray(b)
        b[56 + 4] ^= 7
    recs.append(bytes(b))
d = tempfile.mkdtemp()
try:
    open(d + '/mft', 'wb').write(b''.join(recs))
    subprocess.check_call([sys.executable, 'ntfs_parser', '--mft', d + '/mft', d + '/out'])
    paths = [r[5] for r in csv.reader(open(d + '/out', newline = '', encoding = 'utf-8'))]
finally:
    shutil.rmtree(d)
assert '/file0' in paths and '/file2' in paths and '/file3' in paths, paths
''')

seed('s30-deleted-once', 'P30',
     [(NP, "			deleted_files.append(str(target_number))", "			if str(target_number) not in deleted_files:\n				deleted_files.append(str(target_number))")],
     'a log in which a file record is freed, used again and freed again',
     'the list of deleted files (documented as being in the order of deletion) misses the second deletion',
     '''
import subprocess, tempfile, shutil, sys, struct
import ntfs, lfs
log = lfs.Log(pages = 4)
rs = log.append(lfs.client_restart(1, 0), type = 2)
raw = struct.pack('<LLLLQ', 0xffffffff, 0, 0x80, 0, ntfs.ref(0, 1)).ljust(44, b'\\x00')
log.append(lfs.client_record(raw, redo_op = 0x1c, undo_op = 0, target = 0x18))
for n in (40, 44, 40):
    log.append(lfs.client_record(b'', redo_op = 3, undo_op = 2, undo = b'\\x00' * 8, target = 0x18, lcns = (5,), vcn = n // 4, cbo = 0, block = 2, length = 48))
img = log.image(log.restart_page(clients = [(rs.lsn, rs.lsn)]))
d = tempfile.mkdtemp()
try:
    open(d + '/mft', 'wb').write(b''.join(ntfs.system_frs(n) for n in range(16)))
    open(d + '/log', 'wb').write(img)
    subprocess.check_call([sys.executable, 'ntfs_parser', '--log', d + '/mft', d + '/log', d + '/out'])
    text = open(d + '/out', encoding = 'utf-8').read()
finally:
    shutil.rmtree(d)
line = text.split('(in this order):\\n')[1].split('\\n')[0]
assert line == '40 44 40', line
''', files = ('ntfs.py', 'lfs.py'))

seed('s31-deleted-label', 'P31',
     [(FP, "		if (not found_label) and (not item.is_deleted) and FAT.IsVolumeLabel(item.attributes):", "		if (not found_label) and FAT.IsVolumeLabel(item.attributes):")],
     'a FAT volume whose label was changed: a deleted label entry before the present one',
     'the deleted label is reported as the label of the volume and the present one as a file',
     '''
import subprocess, tempfile, shutil, sys, csv
import fat
v = fat.Volume(12, rootent = 16)
v.link(0, 0xff8)
v.root = (fat.short(b'\\xe5LDLABEL   ', attr = 8) + fat.short(b'NEWLABEL   ', attr = 8) + fat.short(b'FILE    TXT')).ljust(512, b'\\x00')
img = v.image()
d = tempfile.mkdtemp()
try:
    open(d + '/img', 'wb').write(img.read())
    subprocess.check_call([sys.executable, 'fat_parser', d + '/img', '0', d + '/out'])
    paths = [r[2] for r in csv.reader(open(d + '/out', newline = '', encoding = 'utf-8'))][1:]
finally:
    shutil.rmtree(d)
assert [p for p in paths if 'Volume Label' in p] and all('NEWLABEL' in p for p in paths if 'Volume Label' in p), paths
''', files = ('fat.py', 'image.py'))

seed('s32-parent-cache', 'P32',
     [(M, "				parent_file_record = self.get_file_record_by_number(parent_segment_number, parent_sequence_number, False)\n",
          "				if self.__dict__.setdefault('last_parent', (None, None))[0] != parent_segment_number:\n					self.last_parent = (parent_segment_number, self.get_file_record_by_number(parent_segment_number, parent_sequence_number, False))\n				parent_file_record = self.last_parent[1]\n")],
     'paths of two files asked one after another: the parent directory of the second was deleted and its record number was reused by the directory of the first',
     'the second file is shown in the directory of the first; asked alone, it is shown in an unknown directory',
     '''
import io
from dfir_ntfs import MFT
import ntfs
def f(n, parent, flags = 1):
    return ntfs.frs([ntfs.attr_resident(ntfs.FN, ntfs.v_file_name(parent, 'n%d' % n))], number = n, seq = 4, flags = flags)
table = [ntfs.system_frs(i) for i in range(16)] + [f(16, ntfs.ref(5, 5), 3), f(17, ntfs.ref(16, 4)), f(18, ntfs.ref(16, 3))]
def paths(*numbers):
    mft = MFT.MasterFileTableParser(io.BytesIO(b''.join(table)))
    return [mft.build_full_paths(mft.get_file_record_by_number(n)) for n in numbers]
alone = paths(18)[0]
assert paths(17, 18)[1] == alone, (paths(17, 18), alone)
''')

seed('s33-sequential-sectors', 'P32',
     [('dfir_ntfs/MoveTable.py', "			self.file_object.seek(i * self.sector_size)\n", "			if i == 1: # Log sectors are read sequentially.\n				self.file_object.seek(i * self.sector_size)\n")],
     'an iteration over the log sectors of a tracking log during which the header is asked for (or the file object is used otherwise)',
     'the remaining sectors are read from wrong positions: entries are repeated or lost',
     '''
import io, struct
from dfir_ntfs import MoveTable
head = (bytes.fromhex('eca74366feefd111b2ae00c04fb9386d') + bytes(496))
entry = lambda n: struct.pack('<LLLLL', 1000 + n, 2000 + n, 2, 3000 + n, 0) + bytes(96) + struct.pack('<LL', n, 0)
data = head + b''.join((b''.join(entry(10 * s + i) for i in range(4)) + struct.pack('<LL', 0, 1)).ljust(512, b'\\x00') for s in range(3))
def indexes(between):
    p = MoveTable.MoveTableParser(io.BytesIO(data), 512)
    out = []
    for s in p.log_sectors():
        out.append([e.get_log_entry_index() for e in s.log_entries()])
        if len(out) > 5:
            break
        if between:
            p.get_header()
    return out
assert len(indexes(False)) == 3 and indexes(False) == indexes(True), (indexes(False), indexes(True))
''', files = ())

seed('s34-unreadable-directory', 'P33',
     [(FAT, "						except (FileSystemException, ValueError):\n							continue\n", "						except (FileSystemException, ValueError, OSError):\n							continue\n", 0)],
     'a FAT volume on a medium with an unreadable sector in a directory',
     'the walk ends normally without the files of the directory',
     '''
from dfir_ntfs.addons import FAT
import fat
v = fat.Volume(12, rootent = 16)
v.link(0, 0xff8)
v.link(5, 0xfff)
v.root = (fat.short(b'DIR        ', attr = 0x10, cluster = 5) + fat.short(b'FILE    TXT')).ljust(512, b'\\x00')
v.data[5] = fat.short(b'.          ', 0x10, cluster = 5) + fat.short(b'..         ', 0x10) + fat.short(b'INSIDE  TXT')
f = v.image()
p = FAT.FileSystemParser(f)
whole = [i.long_name or i.short_name for i in p.walk()]
failures = 0
for k in range(1, 60):
    p = FAT.FileSystemParser(f)
    read, left = f.read, [k]
    def faulty(*args):
        left[0] -= 1
        if left[0] == 0:
            raise OSError(5, 'Input/output error')
        return read(*args)
    f.read = faulty
    try:
        names = [i.long_name or i.short_name for i in p.walk()]
    except OSError:
        failures += 1
    else:
        assert names == whole, names
    finally:
        f.read = read
assert failures
''', files = ('fat.py', 'image.py'))

seed('s35-log-page-error', 'P33',
     [(L, "		buf = self.file_object.read(self.log_page_size)\n\n		if len(buf) != self.log_page_size: # Truncated data.\n			return\n", "		try:\n			buf = self.file_object.read(self.log_page_size)\n		except OSError:\n			return\n\n		if len(buf) != self.log_page_size: # Truncated data.\n			return\n")],
     'a log file read from a medium with an unreadable sector',
     'log records are missing, as if the log file ended there or the page were invalid',
     '''
import io, lfs
from dfir_ntfs import LogFile
log = lfs.Log(pages = 3)
rs = log.append(lfs.client_restart(1, 0), type = 2)
for i in range(6):
    log.append(lfs.client_record(b'%d' % i * 900, 8, 8, b'y' * 700, target = 0x18, lcns = (9,), vcn = 1))
img = log.image(log.restart_page(clients = [(rs.lsn, rs.lsn)]))
class File(io.BytesIO):
    left = 0
    def read(self, *args):
        self.left -= 1
        if self.left == 0:
            raise OSError(5, 'Input/output error')
        return super().read(*args)
whole = len(list(LogFile.LogFileParser(File(img)).parse_ntfs_records(False)))
failures = 0
for k in range(1, 60):
    f = File(img)
    p = LogFile.LogFileParser(f)
    f.left = k
    try:
        n = len(list(p.parse_ntfs_records(False)))
    except OSError:
        failures += 1
    else:
        assert n == whole, (k, n, whole)
assert failures
''', files = ('ntfs.py', 'lfs.py'))
