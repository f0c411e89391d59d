"""Entry point of one shard process."""
import sys

from .core import worker

if __name__ == '__main__':
    pid, tier, seed, shard, nshards, res, scratch = sys.argv[1:8]
    worker(pid, tier, int(seed), int(shard), int(nshards), res, scratch)
