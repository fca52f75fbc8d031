"""What node code writes to while it runs inside a check. Where NXTV_TRACE
names a file (runs in a process of their own), entries are written there."""
import json
import os


class Log(list):
    def append(self, entry):
        path = os.environ.get('NXTV_TRACE')
        if path:
            with open(path, 'a') as fp:
                fp.write(json.dumps(entry) + '\n')
        list.append(self, entry)


LOG = Log()

LINE = "__import__('pbt.runlog', fromlist=['x']).LOG.append('${_nxtpath}')"


def take():
    out = LOG[:]
    del LOG[:]
    return out
