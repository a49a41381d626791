"""cases that need a local Spark session; a child process shares one session among its cases"""
import os, tempfile, shutil, sys
from pathlib import Path


class ToNumpy:
    """a tokenizer that makes arrays"""

    def __init__(self, f):
        self.f = f

    def __call__(self, line):
        import numpy as np
        return np.array(self.f(line))


def in_scratch(fn):
    tmp = Path(tempfile.mkdtemp(prefix='vspark'))
    old = os.getcwd()
    os.environ['SPARK_LOCAL_DIRS'] = str(tmp / 'local')
    os.environ['SPARK_MASTER'] = 'local[2]'
    os.environ['SPARK_DRIVER_MEM'] = '1g'
    os.environ['JAVA_TOOL_OPTIONS'] = f'-Djava.io.tmpdir={tmp} -XX:TieredStopAtLevel=1'
    os.chdir(tmp)
    try:
        return fn(tmp)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


SMALL = {'spark.ui.enabled': 'false', 'spark.sql.shuffle.partitions': '3', 'spark.default.parallelism': '3'}
SPLIT = dict(SMALL, **{'spark.sql.files.maxPartitionBytes': '256', 'spark.sql.files.openCostInBytes': '1', 'spark.sql.adaptive.enabled': 'false'})


def write(path, lines):
    with open(path, 'wb') as f:
        f.write(''.join(l + '\n' for l in lines).encode('utf-8'))
