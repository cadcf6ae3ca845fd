"""JSON form of transcripts (not instrumented)."""
import datetime


def conv(x, plain=None):
    if plain is not None:
        x = plain(x)
    if x is None or x is True or x is False:
        return x
    if isinstance(x, (bytes, bytearray)):
        return {"b": bytes(x).hex()} if len(x) <= 4096 else {"blen": len(x), "h": hash_(bytes(x))}
    if isinstance(x, bool):
        return bool(x)
    if isinstance(x, int):
        return int.__int__(x)
    if isinstance(x, float):
        return {"f": float.__repr__(x)}
    if isinstance(x, str):
        s = str.__getitem__(x, slice(None))
        return s if len(s) <= 4096 else {"slen": len(s), "h": hash_(s.encode("utf8", "surrogatepass"))}
    if isinstance(x, (list, tuple)):
        return [conv(y, plain) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(conv(y, plain)) for y in x)
    if isinstance(x, dict):
        return [[conv(k, plain), conv(v, plain)] for k, v in x.items()]
    if isinstance(x, (datetime.date, datetime.timedelta, datetime.time)):
        return {"d": repr(x)}
    return {"o": type(x).__name__}


def hash_(b):
    import hashlib
    return hashlib.md5(b).hexdigest()
