#!/usr/bin/env python3
"""Writes known_findings.json: one entry per "fix:" commit of /repo (a fixed entry suppresses nothing) and the known findings."""

import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# subject of the fix commit -> (property, what failed)
FIXED = {
    'keep the collected child file record segments when a repeated first pass fails': ('P33', 'after a repeated first pass which met a read error, attributes of extension records were missing'),
    'do not use settings of another state of the log file when it is parsed again': ('P32', 'a log file parsed without recovery after it was parsed with recovery was decoded with the cluster size and table version of the recovered state'),
    'discard the recovered log data when parsing stops early': ('P32', 'after an iteration over log records was closed early, the parser went on reading the recovered copy'),
    'do not collect child file record segments twice when the first pass is repeated': ('P32', 'after a repeated first pass, attributes of extension records were reported twice'),
    'find a file by path through any of its same-named hard links': ('P05', 'a file with the same name in two directories was found by path in only one of them'),
    'treat a parent directory without file names as an unknown parent': ('P05', 'building paths failed with an exception when a parent directory record had no file names'),
    'reject mapping pairs leading to a negative cluster number': ('P01', 'a run list leading to a negative cluster number was returned as valid'),
    'do not return slack space when reading past the end of a fragmented file': ('P06', 'reads past the file size returned bytes of the last cluster'),
    'do not raise an exception on an out-of-range WSL timestamp': ('P08', 'a WSL timestamp out of range ended decoding with an exception (also P24)'),
    'decode the GUID of a third-party reparse point': ('P08', 'the GUID of a third-party reparse point could not be decoded'),
    'do not decode invalid values of resident attributes': ('P08', 'a resident attribute with a value too short for its structure was decoded as that structure'),
    'do not take directory index entries from outside of the used part of a node': ('P23', 'an index entry was taken from bytes beyond the used part of the node'),
    'parse a log file without an NTFS restart area': ('P10', 'a log without an NTFS client restart area ended parsing with an exception'),
    'do not stop at a log record with invalid client data': ('P10', 'a log record with invalid client data ended the iteration, losing later records'),
    'use a right sequence number when looking for a next log record after the wrap': ('P10', 'records after the wrap of the log were not found'),
    'handle the wrap of the log file after a log record written to several pages': ('P10', 'records after a multi-page record ending at the wrap were not found'),
    'do not take log sequence numbers from data which is not a log record': ('P10', 'data of another kind was taken for a log record'),
    'do not read client data of an invalid length over and over again': ('P10', 'a record with a huge client data length was read round and round the log'),
    'do not apply a copy of a log record page to an invalid offset': ('P11', 'a tail or fast copy naming a place outside of the log area was applied (overwriting restart pages or growing the log)'),
    'do not replace a log record page with an outdated tail copy': ('P11', 'an older tail copy replaced a newer home page'),
    'apply fast log record pages with the end of the last log record': ('P11', 'the newest of two equal-numbered fast pages was not applied'),
    'do not stop at a log record with an invalid offset of table data': ('P12', 'an invalid offset of table data ended the iteration'),
    'do not attribute updates to an outdated open attribute entry after a damaged log record': ('P12', 'updates were attributed to an older owner of an open attribute entry'),
    'do not mix attribute names with an open attribute table from another checkpoint': ('P12', 'names of one checkpoint were combined with the table of another'),
    'do not lose an overlay of a null target of a forwarder block': ('P13', 'overlay data of a forwarded block was read as the wrong data'),
    'do not read past the end of a shadow copy': ('P14', 'reads at the end of a shadow copy returned bytes past it'),
    'do not follow a loop in a chain of shadow blocks': ('P15', 'a cyclic chain of metadata blocks was followed forever'),
    'do not fail with an overflow on too large offsets of shadow blocks': ('P15', 'a large block offset ended in OverflowError'),
    'do not mix the metadata of two shadow copies after an error': ('P15', 'after a failed selection reads mixed the metadata of two shadow copies'),
    'do not read a GPT partition entry array which does not fit into a volume': ('P16', 'a huge number of partition entries ended in OverflowError or MemoryError (and the backup was not tried)'),
    'do not lose logical partitions when there is an invalid extended partition': ('P16', 'an extended partition starting at LBA 0 hid the logical partitions of the other one'),
    'do not report an empty orphan long name': ('P19', 'a long-name entry without characters was reported as an orphan with no name, which ended a walk with an exception'),
    'do not follow a loop to an orphan directory (FAT)': ('P20', 'an orphan directory containing an entry for itself was listed twice'),
    'do not fail on deeply nested directories (FAT)': ('P20', 'a walk over about 1000 nested directories ended in RecursionError'),
    'validate truncated exFAT file names': ('P21', 'a name cut to its declared length was cut at the wrong place (characters outside of the BMP) and not validated (a slash could be reported in a name)'),
    'skip exFAT directories which are not a whole number of sectors': ('P22', 'a subdirectory with an odd size ended the whole walk with an exception'),
    'do not fail when comparing an invalid timestamp of an exFAT directory': ('P22', 'two deleted entries of a reallocated directory, one with an invalid timestamp, ended the walk with TypeError'),
    'do not follow a loop to an orphan directory (exFAT)': ('P22', 'an orphan directory containing an entry for itself was listed twice'),
    'do not fail on deeply nested directories (exFAT)': ('P22', 'a walk over about 1000 nested directories ended in RecursionError'),
    'do not fail when the allocation bitmap is too short (exFAT)': ('P22', 'an allocation bitmap shorter than the cluster count ended the walk with IndexError'),
    '$INDEX_ROOT entries end at the entry carrying the end flag': ('P23', 'entries after the end marker of an index root were reported when the marker had a key'),
    'an index entry whose attribute leaves the entry is invalid': ('P23', 'the file name of an index entry was read from the bytes of the entry after it'),
    'do not report a truncated Linux extended attribute': ('P24', 'a Linux extended attribute whose value is cut was reported with a shorter value'),
    'report an invalid FAT boot sector without a volume or FAT size': ('P25', 'a boot sector with no sector count ended in TypeError'),
    'exFAT cluster heap offset limit follows from the volume length': ('P25', 'a valid volume whose cluster heap starts far behind the table was rejected'),
    'report a truncated boot region (exFAT)': ('P22', 'an image cut in the boot region ended in struct.error'),
    'skip index entries without a file name (file table report)': ('P26', 'an index entry without a file name ended the file table report with an exception'),
    'use the parent recorded in an index entry (index report)': ('P26', 'the index report attributed an entry to the directory its block was found in, not to the parent recorded in it'),
    'a directory index which cannot be read does not end the report (index report)': ('P26', 'one directory with an unreadable index ended the index report'),
    'invalid redo or undo data does not end the report (log report)': ('P30', 'a log record whose data offset points into its header ended the log report'),
    'a truncated index entry does not end the report (log report)': ('P30', 'a log record with less than 16 bytes of index entry ended the log report with struct.error'),
    'a truncated attribute does not end the report (log report)': ('P30', 'a log record creating an attribute too short for its type ended the log report with struct.error'),
    'a truncated file name does not end the report (journal and log reports)': ('P30', 'a journal record whose file name leaves the record ended the journal and log reports'),
    'the header of an open attribute table is not an entry': ('P12', 'an update with a target index pointing to the header of the open attribute table was attributed to a file made of header bytes'),
    'report an invalid (negative) file record segment number': ('P04', 'a lookup of a negative number (the target of a damaged log record) ended in OSError instead of the documented exception'),
    'report a truncated client record (log file)': ('P29', 'a damaged client array in a restart page ended in struct.error'),
    'report invalid positions and sizes in a boot sector and in data runs': ('P29', 'a damaged MFT cluster number, record size or data run position ended in OverflowError, ValueError or MemoryError'),
    'use another restart page when a restart area is invalid': ('P11', 'a first restart page with an invalid restart area or client record ended in an exception although the second restart page was intact'),
    'do not fail on an invalid client name (log file)': ('P10', 'a client name with an unpaired surrogate ended in UnicodeDecodeError'),
    'an invalid tail copy does not hide a valid one (log file)': ('P11', 'a newer tail copy naming an impossible place made the parser ignore the other, valid tail copy'),
    'the signature of an extended boot sector is at its end (exFAT)': ('P25', 'on volumes with sectors of more than 512 bytes the signature of an extended boot sector was taken from within its code'),
    'repeating a search for file control blocks gives the same result': ('P28', 'a second search with the same carver object ended in ValueError'),
}

# Known findings: (property, group, [cases], what fails)
KNOWN = []


def main():
    out = []
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output = True, text = True).stdout.splitlines()
    for line in log:
        h, subject = line.split(' ', 1)
        if subject.startswith('fix: '):
            pid, what = FIXED.pop(subject[5:])
            out.append({'property': pid, 'status': 'fixed', 'commit': h, 'what': 'fixed: property={} {} {}'.format(pid, h, what)})
    assert not FIXED, FIXED
    for pid, group, cases, what in KNOWN:
        out.append({'property': pid, 'status': 'known', 'group': group, 'cases': cases, 'what': what})
    with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
        f.write('{"findings": [\n' + ',\n'.join(json.dumps(x) for x in out) + '\n]}\n')


main()
