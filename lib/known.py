"""The probes of the known findings: (source, does it still fail?)."""
import hv

PROBES = {
    "deep_recursion": (b"let f = function(n) if n == 0 then return 0 end return 1 + f(n - 1) end\nstd.println(f(20000))\n",
                       lambda code, out, err: code is not None and code < 0),
    "cyclic_equality": (b"let a = [] std.push(a, a) let b = [] std.push(b, b) std.println(a == b)\n",
                        lambda code, out, err: code is not None and code < 0),
    "cyclic_text": (b"let a = [] std.push(a, a) std.println(a)\n",
                    lambda code, out, err: code is not None and code < 0),
    "deep_nesting": (b"let x = " + b"(" * 3000 + b"1" + b")" * 3000 + b"\n",
                     lambda code, out, err: code is not None and code < 0),
    "json_float": (b"std.println(std.json.decode(std.json.encode(200.42334555258978)) == 200.42334555258978)\n",
                   lambda code, out, err: code == 0 and out == b"false\n"),
    "alias": (b"{ alias x=y }\n", lambda code, out, err: code == 101),
    "unknown_flag": (b"", lambda code, out, err: code == 101, "--unknown $'\\xff'"),
}


def report(ck, exe):
    """One line for each finding of this property that's still there."""
    for prop, probe, what in hv.known_findings():
        if prop != ck.prop or probe not in PROBES:
            continue
        src, bad, *args = PROBES[probe]
        with hv.Scratch() as d:
            with open(d + "/p.hsh", "wb") as h:
                h.write(src)
            r = hv.run(["bash", "-c", "ulimit -c 0; exec %s %s" % (exe, args[0] if args else "p.hsh")], d, hv.base_env(d))
        if bad(*r):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
            ck.add("known_findings", 1)
