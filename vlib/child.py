"""Builds the circuits of the specs given in stdin and prints their descriptions.

Run in interpreters of their own, with other hash seeds, by C14."""

import json
import sys

if __name__ == "__main__":
    sys.path[:0] = [sys.argv[1], sys.argv[2]]
    from vlib import pure

    specs = json.load(sys.stdin)
    out = [pure.describe(pure.build(spec)) for spec in specs]
    # ends with a marker so that a truncated answer is not taken as an answer
    print(json.dumps(dict(out=out, done=True)))
