#!/usr/bin/env python3
"""Make macoro/config.h from config.h.in as cmake's configure_file does."""
import re, sys, os
def generate(src, dst, std_stop):
    vals = {"MACORO_CPP_20": "ON", "MACORO_HAS_STD_STOP_TOKEN": "ON" if std_stop else None,
            "MACORO_VARIANT_LITE_V": None, "MACORO_OPTIONAL_LITE_V": None}
    out = []
    for line in open(src):
        m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)", line)
        if m:
            v = vals.get(m.group(1))
            out.append("#define %s %s\n" % (m.group(1), v) if v else "/* #undef %s */\n" % m.group(1))
        else:
            out.append(line)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    text = "".join(out)
    if not os.path.exists(dst) or open(dst).read() != text:
        open(dst, "w").write(text)
if __name__ == "__main__":
    generate(sys.argv[1], sys.argv[2], sys.argv[3] == "1")
