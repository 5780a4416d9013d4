"""Pseudo-random generators whose streams are independent.

The generator of this interpreter is linear: started from neighbouring seeds,
which the hashes of similar strings are, its first numbers are nearly equal.
"""
import hashlib
import random


def Random(*parts):
    text = '/'.join(str(part) for part in parts)
    return random.Random(int(hashlib.md5(text).hexdigest()[:15], 16))
