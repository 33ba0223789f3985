"""One integer decides everything: every generator is derived from VERIF_SEED by name."""

import hashlib
import json
import random


def derive(seed, *path):
    text = json.dumps([seed, *path], sort_keys=True)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def rng_for(seed, *path):
    return random.Random(derive(seed, *path))


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = json.dumps(obj, sort_keys=True)
    if isinstance(obj, str):
        obj = obj.encode()
    return hashlib.sha256(obj).hexdigest()[:16]
