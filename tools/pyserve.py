"""Drives the Python bindings: one JSON request per line, one JSON answer per line."""
import json
import sys

import pymbusparser as m


class Text(str):
    pass


def value(v):
    """Arguments are [type, payload]."""
    t, x = v
    if t == "str":
        return x
    if t == "strsub":
        return Text(x)
    if t == "bytes":
        return bytes.fromhex(x)
    if t == "bytearray":
        return bytearray.fromhex(x)
    if t == "memoryview":
        return memoryview(bytes.fromhex(x))
    if t == "surrogate":
        return "\ud800" + x
    if t == "object":
        return object()
    if t == "list":
        return [x]
    return x


for line in sys.stdin:
    q = json.loads(line)
    try:
        f = getattr(m, q["fn"])
        r = f(*[value(a) for a in q["args"]], **{k: value(a) for k, a in q["kwargs"].items()})
        a = {"ok": r}
    except m.MbusParserError as e:
        a = {"error": str(e), "value_error": isinstance(e, ValueError)}
    except Exception as e:
        a = {"exception": type(e).__name__, "text": str(e)}
    except BaseException as e:
        a = {"panic": type(e).__name__ + ": " + str(e)}
    sys.stdout.write(json.dumps(a) + "\n")
    sys.stdout.flush()
