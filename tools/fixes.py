#!/usr/bin/env python3
"""writes the 'fixed:' lines of known_findings.txt from the fix commits of /repo"""
import subprocess
MAP = {'82be34d': 'P04', '85ea828': 'P28', '96f8843': 'P28', '301de95': 'P16', '1ef30d1': 'P15', '0b58781': 'P15', '0a20e5e': 'P15',
       '10df888': 'P10', '922a333': 'P10', 'ae5614d': 'P17', '24e5d74': 'P17', '33dd0b9': 'P13', 'a98e299': 'P25', 'fa9ad0f': 'P24',
       'e9204f7': 'P24', 'e19f504': 'P06', 'e66757a': 'P09', 'b5adba8': 'P09', 'c29753e': 'P09', '76761a2': 'P22', 'f494513': 'P22',
       'f857cb4': 'P22', '8356b36': 'P22', 'f800803': 'P22', '5f034ce': 'P22', '294aaea': 'P23', '463bf14': 'P22', '1d27739': 'P23',
       '7449768': 'P14', 'fab9c53': 'P25', 'cabc581': 'P11', 'c9ea2f2': 'P07', '7cc7c23': 'P07', 'eac7d96': 'P01', '5f64627': 'P04',
       '779bebd': 'P18', 'eb04b49': 'P19', '3bedd42': 'P19', '3c193eb': 'P25', 'b7f48c5': 'P21', 'b11d4c3': 'P21', '93b6799': 'P17',
       '19e39f0': 'P28', '3806109': 'P24', '3774a69': 'P25', '889fc81': 'P25', 'ac8f446': 'P22', '226c744': 'P22', '80d4e2d': 'P22', '64c0b7d': 'P22', '7f0353c': 'P27', 'f212812': 'P20', 'b21db18': 'P18', 'da93b3c': 'P10',
       'eb17405': 'P32', '170079e': 'P06', '6216ed5': 'P08', 'a64cb3a': 'P08', 'aa4f3fd': 'P09'}
out = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'f0a33f3..HEAD'], text=True)
with open('/verif/known_findings.txt', 'w') as f:
    f.write('# known: property=<id> key=<event key> <what fails>   (reported as KNOWN-FINDING)\n'
            '# fixed: property=<id> <commit> <what failed>           (suppresses nothing)\n')
    for ln in out.splitlines():
        h, s = ln.split(' ', 1)
        f.write('fixed: property=%s %s %s (failed before this commit)\n' % (MAP[h], h, s.replace('fix: ', '', 1)))
