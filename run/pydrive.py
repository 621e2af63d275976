"""Runs inside the interpreter that has the module under test; one JSON request per line."""
import json, os, struct, sys
import poppy

S = {}


def do(a):
    op, s = a[0], a[1]
    if op == "new":
        S[s] = poppy.BloomFilter(a[2], float(a[3]))
    elif op == "version":
        S[s] = poppy.BloomFilter.with_version(a[2], a[3], float(a[4]))
    elif op == "params":
        S[s] = poppy.BloomFilter.with_params(a[2], a[3], float(a[4]), a[5])
    elif op == "ins_str":
        return S[s].insert_str(a[2])
    elif op == "ins_bytes":
        return S[s].insert_bytes(a[2].encode())
    elif op == "ins_raw":
        return S[s].insert_bytes(bytes.fromhex(a[2]))
    elif op == "qry_str":
        return S[s].contains_str(a[2])
    elif op == "qry_bytes":
        return S[s].contains_bytes(a[2].encode())
    elif op == "qry_raw":
        return S[s].contains_bytes(bytes.fromhex(a[2]))
    elif op == "uni":
        return S[s].union_merge(S[a[2]])
    elif op == "cmn":
        return S[s].count_common_entries(S[a[2]])
    elif op == "dumps":
        return bytes(S[s].dumps()).hex()
    elif op == "info":
        f = S[s]
        return {"version": f.version, "capacity": f.capacity, "fpp": "%x" % struct.unpack("<Q", struct.pack("<d", f.fpp))[0], "count_estimate": f.count_estimate,
                "is_full": f.is_full(), "data": bytes(f.data).hex()}
    elif op == "reload":
        S[s] = poppy.loads(S[s].dumps())
    elif op == "refile":
        if a[2]:
            # an existing file, longer than what is written
            open("t.bloom", "wb").write(b"x" * (len(S[s].dumps()) + a[2]))
        S[s].save("t.bloom")
        if open("t.bloom", "rb").read() != bytes(S[s].dumps()):
            return "saved bytes differ from dumped bytes"
        S[s] = poppy.load("t.bloom")
        os.remove("t.bloom")
    elif op == "loads":
        S[s] = poppy.loads(bytes.fromhex(a[2]))
    elif op == "nofile":
        poppy.load("no-such-file")
    return None


for l in sys.stdin:
    a = json.loads(l)
    try:
        r = ["ok", do(a)]
    except BaseException as e:
        r = [type(e).__name__, str(e)[:200]]
    print(json.dumps(r), flush=True)
