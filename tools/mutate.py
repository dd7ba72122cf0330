#!/usr/bin/env python3
"""Systematic mutation of the sources: which mutants are noticed by no check?
usage: mutate.py OUT.jsonl [-j N/M] FILE...   (files under src; checks by the map below)"""
import sys, os, re, json, subprocess, tempfile, shutil, random, signal
HERE = os.path.dirname(os.path.abspath(__file__))
MAP = {
    "core/buffer.c": "B01 B02 B03 L01 Z01", "core/beast.c": "E01 A01 A02", "core/filter.c": "F01 D01", "core/gps.c": "G01 L01",
    "core/login.c": "L02 L01", "core/network.c": "N01 N02 D01 L01 Z01", "core/recv.c": "P01 Z01", "core/relay.c": "L01 Z01",
    "core/tb.c": "K01 Z01", "dump1090/req-serial.c": "S01", "radarcape/rc-parser.c": "R01 R02 I01", "radarcape/uart.c": "I01",
    "radarcape/network.c": "I01", "radarcape/gpio.c": "H02", "radarcape/watchdog.c": "H02", "radarcape/wd-main.c": "H02",
    "radarcape/fpga.c": "H01", "radarcape/tb-misc.c": "K02", "radarcape/tb-rshell.c": "K02", "trimble/trimble_parser.c": "T01",
    "trimble/trimble_recv.c": "T02", "trimble/trimble_input_uart.c": "I01", "trimble/trimble_input_network.c": "I01",
    "util/component.c": "C01 C02", "util/cfgfile.c": "O01 O02 O03", "util/list.h": "X01 C01 B01", "util/proc.c": "K02",
    "util/serial_eth.c": "S02", "util/statistics.c": "D01", "util/net_common-posix.c": "N03", "util/util.c": "N03 M01",
    "util/endec.h": "K01 G01 S01 L02 E01", "gplib/opensky.cc": "A01", "radarcape/lib/opensky.cc": "A02", "util/log_stdio.c": "U01",
    "util/port/mmap-posix.c": "O01", "util/port/socket.h": "N01 N02 K01 I01", "dump1090/dump1090.c": "M01", "radarcape/main.c": "M02",
    "dump1090/position.c": "M01", "dump1090/devtype.c": "M01", "util/threads.h": "B03 N01",
}


def mutants(text):
    lines = text.split("\n")
    depth = 0
    cont = False
    for i, l in enumerate(lines):
        s = l.strip()
        d0 = depth
        depth += l.count("{") - l.count("}")
        was, cont = cont, bool(s) and not s.endswith((";", "{", "}", "*/", ":")) and not s.startswith(("//", "/*", "*", "#"))
        if d0 < 1 or not s or s.startswith(("//", "/*", "*", "#", "LOG_", "assert", "}", '"')) or "LOG_" in s:
            continue
        if re.match(r"\.[a-z_A-Z]+ =", s) and "." == s[0]:
            pass
        if s.endswith(";") and not was and re.match(r"[\w*+\-(].*[=(+\-].*;$", s) and not re.match(r"(return|const|static|struct|enum|union|u?int\w* |size_t|bool |char |ssize_t|time_t|extern|uint|for|if|while|else)", s):
            yield i, "delete", re.sub(r"\S.*$", ";", l)
        if s.startswith(("break;", "continue;")):
            yield i, "delete", re.sub(r"\S.*$", ";", l)
        m = re.match(r"^(\s*(?:\} else )?(?:if|while) \()(.*)(\)\s*\{?)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            yield i, "negate", m.group(1) + "!(" + m.group(2) + ")" + m.group(3)
        for pat, rep in ((r" && ", " || "), (r" \|\| ", " && "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
                         (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r"\|= ", "= "), (r"&= ~", "|= "), (r"\btrue\b", "false"),
                         (r"\bfalse\b", "true"), (r" >> ", " << "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \* ", " + "), (r" / ", " * "), (r" & ", " | "), (r"\bNULL\b", None)):
            if rep is None:
                continue
            ms = list(re.finditer(pat, l))
            for m in ms[:2]:
                yield i, pat + "->" + rep, l[:m.start()] + rep + l[m.end():]
        for m in list(re.finditer(r"(?<![\w.\"'%])(0x[0-9a-fA-F]+|\d+)(?![\w.\"])", l))[:2]:
            v = int(m.group(1), 0 if m.group(1)[:2] in ("0x", "0") or m.group(1)[0] != "0" else 8)
            if '"' in l[:m.start()]:
                continue
            yield i, "const+1", l[:m.start()] + str(v + 1) + l[m.end():]
        if s.startswith("return ") and s.endswith(";") and not was and s not in ("return true;", "return false;"):
            pass


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or sorted(MAP)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["op"], d["new"]))
    d = tempfile.mkdtemp(prefix="mutate.")
    shutil.copytree("/repo/src", d + "/src", symlinks=True)
    for f in files:
        p = d + "/src/" + f
        text = open(p).read()
        lines = text.split("\n")
        ms = list(mutants(text))
        random.Random(f).shuffle(ms)
        for i, op, new in ms[:int(os.environ.get("MUT_MAX", "1000"))]:
            if (f, i + 1, op, new.strip()) in done:
                continue
            l2 = list(lines)
            l2[i] = new
            open(p, "w").write("\n".join(l2))
            res = "survived"
            for c in MAP[f].split():
                if subprocess.run(["grep", "-q", '"%s"' % c, HERE + "/../MANIFEST.json"]).returncode:
                    continue
                try:
                    r = subprocess.run(["python3", HERE + "/../check.py", c, "quick"], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=400)
                    if r.returncode == 1:
                        res = "killed " + c
                        break
                    if r.returncode != 0:
                        res = ("nobuild" if "cannot build" in r.stdout else "error %s " % c + r.stdout[-300:])
                        break
                except subprocess.TimeoutExpired:
                    res = "timeout " + c
                    break
            with open(out, "a") as fh:
                fh.write(json.dumps(dict(file=f, line=i + 1, op=op, old=lines[i].strip(), new=new.strip(), res=res)) + "\n")
        open(p, "w").write(text)
    shutil.rmtree(d)


if __name__ == "__main__":
    main()
