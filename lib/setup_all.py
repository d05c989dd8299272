"""Builds what the checks share, so that the first check of a fresh sandbox does not pay for it."""
import worker
def main():
    for v in ("plain", "asan", "interop"):
        print("worker %s: %s" % (v, worker.build_worker(v)), flush=True)
    return 0
