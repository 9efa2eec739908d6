"""child process of C31: converts streams given on stdin, prints what came out"""
import hashlib
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from vlib import sut

    real = sys.stdout
    jobs = json.load(sys.stdin)
    sut.setup()
    res = []
    try:
        for j in jobs:
            try:
                out = {}
                name = os.fsdecode(j.get("name", "s").encode("utf-8")) + ".rtcm3"  # as it would arrive in sys.argv
                d = sut.SCRATCH.new()
                try:
                    o, _ = sut.cli_convert(j["fmt"], {name: bytes.fromhex(j["data"])}, j["ctl"], keep=d)
                finally:
                    sut.SCRATCH.drop(d)
                o = o[name]
                if o is None:
                    out = {"": "no output folder"}
                else:
                    out = {p: hashlib.sha1(b).hexdigest() for p, b in o.files.items()}
                    out["log text"] = (o.log or "").replace(d, "<folder>")
                    out["log"] = [re.findall(sut.PROGRESS, o.log or "")[-1:], re.findall(r"(Finished with\w* errors|Decoding was terminated|Conversion aborted)", o.log or "")]
                res.append(out)
            except sut.Violation as ex:
                res.append({"": str(ex)})
    finally:
        os.chdir("/")
        sut.SCRATCH.close()
    json.dump(res, real)


main()
