#!/usr/bin/env python3
"""Writes known_findings.json: every repaired defect with the property that found it."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
OF = {
    'placeholders of the first version': 'P34',
    'metadata can be pickled': 'P11',
    'swap resolves relative paths': 'P01',
    'swap_carefree undoes the fallback': 'P02',
    'rmtree reports errors raised before': 'P03',
    'writing from an empty data generator': 'P06',
    'LocalPath.copy_to refuses to copy': 'P05',
    'reading a range of exactly one chunk': 'P07',
    'etag.digest does not change': 'P08',
    'a failing chdir in pushd or popd': 'P26',
    'entering the same directory path twice': 'P26',
    'getxattr reports errors other': 'P10',
    'LocalPath.created returns the value': 'P09',
    'LocalPath.meta is not served from a memo': 'P09',
    'paths made by the same EatPath class': 'P10',
    'crumple returns the path': 'P13',
    'PathMeta equality does not depend': 'P11',
    'validate_file can record': 'P14',
    'checksum uses an explicitly requested': 'P08',
    'fields of replaced xattr metadata': 'P11',
    'move does not replace other content': 'P15',
    'a failing update of a symlink cache': 'P12',
    'fetch never loses the metadata': 'P14',
    'metadata that would read back': 'P11',
    'moving onto a foreign placeholder': 'P15',
    'replacing metadata by that of another id': 'P12',
    'a leftover of a killed move': 'P15',
    'bootstrap does not hang': 'P16',
    'answers of a remote host': 'P17',
    'remote commands quote the paths': 'P17',
    'remote data reports when ssh or cat': 'P17',
    'an empty remote file is a file': 'P17',
    'StatResult for names': 'P17',
    'StatResult times before': 'P17',
    'the checksum of a remote path': 'P17',
    'access to a remote path only': 'P17',
    'remote paths made from several': 'P17',
    'commit of a path does not involve': 'P18',
    'diff against the index': 'P20',
    'names that look like patterns': 'P20',
    'show returns a file that ends': 'P20',
    'entering an invalid ref': 'P19',
    'leaving a ref restores': 'P19',
    'adding a path that does not exist': 'P18',
    'concurrent readers of a file in a zip': 'P21',
    'paths that are not in a zip archive': 'P21',
    'a directory or missing file called .zip': 'P21',
    'the last version of a file in a zip': 'P21',
    'a zip archive that was replaced': 'P21',
    'a path outside of any zip archive': 'P21',
    'concurrent fetches of a file': 'P22',
    'processes that identify the machine': 'P23',
    'files whose name starts with that': 'P25',
    'is_sparse of relative paths': 'P27',
    'a failed attempt to anchor': 'P28',
    'clone to the directory git would name': 'P29',
    'the root found from a relative path': 'P30',
    'as_path of a remote with a cache': 'P30',
    'the root found from a path with ..': 'P30',
    'a move does not give the identity': 'P15',
    'a file is compared using the kind': 'P32',
    'a renamed placeholder is refused': 'P11',
    'mkdir_remote': 'P33',
    'directories a moved object needs': 'P31',
    'the uri of a path': 'P35',
    'a directory left by an interrupted move': 'P16',
    'a pull also follows': 'P16',
    'the tags of a package': 'P36',
    'before the first release all commits': 'P36',
    'a package is not taken for a new one': 'P36',
}


def main():
    log = subprocess.run(['git', '-C', REPO, 'log', '--reverse', '--format=%h %s'], capture_output=True,
                         text=True, check=True).stdout.splitlines()
    fixed, used = [], set()
    for l in log:
        sha, _, msg = l.partition(' ')
        if not msg.startswith('fix: '):
            continue
        what = msg[5:]
        hits = [k for k in OF if what.startswith(k)]
        assert len(hits) == 1, (what, hits)
        used.add(hits[0])
        fixed.append(f'fixed: property={OF[hits[0]]} {sha} {what}')
    print([k for k in OF if k not in used])
    json.dump({'findings': [], 'fixed': fixed}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1,
              ensure_ascii=False)


main()
