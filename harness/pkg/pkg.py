#!/usr/bin/env python3
"""Explores what the scripts of the Debian packages do: pkg.py build <dir> <repo>, then pkg.py <dir> <repo> k=v ... out=F
[replay=@F]. The real scripts (debian/*.config, *.postinst, *.postrm with the real templates) run unprivileged below a scratch
directory, talking to a front end that is implemented here and that answers from the alphabets of the job; what they produce
is read by the real daemon. Every explored path is one of: a list of answers (dialogues), a history of installations,
upgrades, reconfigurations, starts of the daemon, removals and purges (BFS over all reachable states), or an interruption at
one of the commands of a script."""
import sys, os, re, json, glob, shutil, subprocess, tempfile, time, itertools, select, hashlib, stat

PKGS = ["opensky-feeder", "opensky-feeder-kit", "opensky-feeder-donated"]
BIN = {"openskyd-dump1090": ("", "feeder"), "openskyd-dump1090-kit": ("-DDUMP1090_KIT", "kit"),
       "openskyd-dump1090-donated": ("-DDUMP1090_DONATED", "donated")}
TOOLS = ["getent", "addgroup", "adduser", "groupadd", "useradd", "usermod", "deluser", "delgroup", "userdel", "groupdel", "id",
         "dpkg-statoverride", "chown", "chgrp", "chmod", "mkdir", "mv", "cp", "rm", "rmdir", "cat", "grep", "ln", "touch",
         "install", "sed", "tee", "find", "unlink", "systemctl", "deb-systemd-helper", "deb-systemd-invoke", "update-rc.d",
         "invoke-rc.d", "service", "kill", "killall", "pkill", "uname", "dmesg", "awk", "head", "tail", "cut", "wc", "tr"]
WRAP = ["main", "TB_register", "NET_send", "NET_checkConnected", "LOGIN_setUsername", "LOGIN_setDeviceType",
        "GPS_setPositionWithFix", "NETC_connect", "COMP_startAll"]
KEYS = ["latitude", "longitude", "altitude", "dump1090branch", "username", "serial", "port", "host"]
HERE = os.path.dirname(os.path.abspath(__file__))


class Violation(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        print("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
        sys.exit(2)
    return p.stdout


def build(bdir, repo):
    """The stand-in and the daemons of the packages, for the directories which the packages are built for"""
    os.makedirs(bdir, exist_ok=True)
    conf = run(["make", "-n", "-f", "debian/rules", "override_dh_auto_configure"], cwd=repo)
    d = {k: re.search(r"--%s=(\S+)" % k, conf).group(1) for k in ("localstatedir", "sysconfdir")}
    run(["gcc", "-O1", "-w", "-o", bdir + "/tool", HERE + "/tool.c"])
    inst = {}
    for p in PKGS:
        t = open("%s/debian/%s.install" % (repo, p)).read()
        m = re.search(r"^usr/bin/(\S+)(?:[ \t]*=>[ \t]*(\S+))?", t, re.M)
        unit = open(glob.glob("%s/debian/%s.*service" % (repo, p))[0]).read()
        inst[p] = dict(build=m.group(1), path="/" + (m.group(2) or "usr/bin/" + m.group(1)),
                       exec=re.search(r"^ExecStart=(\S+)", unit, re.M).group(1), user=re.search(r"^User=(\S+)", unit, re.M).group(1))
        if m.group(2) is None:
            inst[p]["path"] = "/usr/bin/" + m.group(1)
    src = repo + "/src/"
    util = [f for f in glob.glob(src + "util/*.c") + glob.glob(src + "util/port/*.c") + glob.glob(src + "core/*.c")
            if not re.search(r"winsock|windows|serial_eth", f)] + [src + "radarcape/" + x for x in ("rc-parser.c", "network.c", "tb-rshell.c")]
    flags = ["-g", "-O1", "-w", "-std=gnu11", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-DSYSCONFDIR=\".%s\"" % d["sysconfdir"],
             "-DLOCALSTATEDIR=\".%s\"" % d["localstatedir"], "-I" + HERE + "/../../mc/config", "-I" + src]
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    objs = []
    for f in util:
        o = "%s/u_%s.o" % (bdir, os.path.relpath(f, src).replace("/", "_"))
        objs.append(o)
        jobs.append(["gcc", "-c", f, "-o", o] + flags)
    main = {}
    for b, (fl, _) in BIN.items():
        main[b] = []
        for f in sorted(glob.glob(src + "dump1090/*.c")) + [HERE + "/daemon.c"]:
            o = "%s/%s_%s.o" % (bdir, b, os.path.basename(f))
            main[b].append(o)
            jobs.append(["gcc", "-c", f, "-o", o] + flags + ([fl] if fl else []))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    run(["ar", "rcs", bdir + "/all.a"] + objs)
    for b in BIN:
        run(["gcc", "-o", "%s/%s" % (bdir, b)] + main[b] + [bdir + "/all.a", "-Wl," + ",".join("--wrap=" + w for w in WRAP), "-lpthread", "-lm"])
    with open(bdir + "/info.json", "w") as f:
        json.dump(dict(d, inst=inst), f)


def templates(path):
    out = {}
    for para in re.split(r"\n\s*\n", open(path).read()):
        f = dict(re.findall(r"^(\w+): ?(.*)$", para, re.M))
        if "Template" in f:
            out[f["Template"]] = dict(type=f.get("Type"), default=f.get("Default"),
                                      choices=[c.strip() for c in f["Choices"].split(",")] if "Choices" in f else None)
    return out


# ---- what a text that is entered means ----

DEC = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)$")
INT = re.compile(r"^[+-]?\d+$")


def meaning(key, v):
    """(may be accepted, must be accepted, value that the daemon has to use)"""
    if key in ("latitude", "longitude", "altitude"):
        if not DEC.match(v):
            return False, False, None
        lim = {"latitude": 90, "longitude": 180, "altitude": 1e300}[key]
        ok = abs(float(v)) <= lim
        return ok, ok, float(v) if ok else None
    if key == "port":
        if v == "":
            return True, True, 30005
        ok = bool(INT.match(v)) and 1 <= int(v) <= 65535
        return ok, ok and v == str(int(v)), int(v) if ok else None
    if key == "serial":
        if v == "":
            return True, True, None
        ok = bool(INT.match(v)) and -2**31 <= int(v) < 2**32
        return ok, ok and v == str(int(v)), int(v) % 2**32 if ok else None
    if key == "username":
        ok = len(v.encode()) <= 40
        return ok, ok, v
    if key == "host":
        return True, True, v or "localhost"
    return True, True, v


VALUES = {
    "latitude": ["48.1", "-90", "90", "+90.0", "90.0001", "-91", "abc", "", "5.", ".5", "1e1", "0x10", "nan", "inf", "007.25", "48,1", "4 8", "--4", "-0.5", "1.2.3"],
    "longitude": ["11.5", "-180", "180", "180.001", "-180.5", "200", "x", "", "+011.5", "1e2", "-inf", "91", "-91"],
    "altitude": ["500", "-400.5", "0", "abc", "", "8848.86", "500m", "1e3", "nan", "12345", "+3"],
    "username": ["", "bob", "a" * 40, "a" * 41, "a;b", "a#b", "$HOME", "`id`", "a\\nb", "a'b\"c", "%s%n", "[x]", "a=b", "\u00e4" * 20, "\u00e4" * 21, "\u00e4" * 40, "$(id)", "bob smith", "-n", "*", "a\\", "EOF"],
    "serial": ["", "1", "5", "4294967295", "4294967296", "-1", "-1408237098", "-2147483648", "-2147483649", "0", "007", "010", "+5", "abc", "1.5", "12a", "0x10", "99999999999999999999"],
    "port": ["", "30005", "1", "65535", "0", "65536", "-1", "+80", "080", "010000", "0x50", "3.5", "abc", "30005x", "99999999999999999999"],
    "host": ["", "localhost", "192.168.1.5", "::1", "fe80::1%eth0", "my-host.example.org", "a" * 63 + ".example.org", "h;x", "h#x", "$HOST", "h\\x"],
    "dump1090branch": ["default", "hptoa"],
}
GOOD = {"latitude": "48.1", "longitude": "11.5", "altitude": "500", "username": "bob", "serial": "", "port": "30005",
        "host": "localhost", "dump1090branch": "default"}
BAD = {"latitude": "95", "longitude": "x", "altitude": "", "username": "b" * 41, "serial": "abc", "port": "0"}


class Frontend:
    """debconf's side of the protocol (Debconf::ConfModule)"""
    PRIO = ["low", "medium", "high", "critical"]

    def __init__(self, db, tmpl, owner, ask, interactive=True, threshold="high", reshow=False, limit=400):
        self.db, self.t, self.owner, self.ask = db, tmpl, owner, ask
        self.interactive, self.threshold, self.reshow, self.limit = interactive, threshold, reshow, limit
        self.busy, self.blocks, self.used, self.n = [], [], [], 0

    def load(self):
        for q, t in self.t.items():
            e = self.db.setdefault(q, dict(value=None, seen=False, owners=[]))
            e["owners"] = sorted(set(e["owners"]) | {self.owner})

    def get(self, q):
        v = self.db[q]["value"]
        return v if v is not None else (self.t.get(q, {}).get("default") or "")

    def command(self, line):
        self.n += 1
        if self.n > self.limit:
            raise Violation("the dialogue does not end: the script repeats '%s'" % line)
        c, _, rest = line.partition(" ")
        a = rest.split(" ")
        c = c.upper()
        if c in ("VERSION", "SETTITLE", "TITLE", "BEGINBLOCK", "ENDBLOCK", "CAPB", "INFO", "PROGRESS", "SUBST"):
            return "0 "
        if c == "GO":
            blk = []
            for q, vis in self.busy:
                if not vis:
                    continue
                t = self.t[q]
                if t["type"] == "error":
                    blk.append((q, None))
                else:
                    v = self.ask(q.split("/")[1], self.get(q))
                    if t["choices"] and v not in t["choices"]:
                        raise Violation("%s cannot be chosen for %s" % (v, q))
                    blk.append((q, v))
                    self.db[q]["value"] = v
                self.used.append(q)
            if blk:
                self.blocks.append(blk)
            self.busy = []
            return "0 ok"
        if c == "PURGE":
            for q in list(self.db):
                e = self.db[q]
                e["owners"] = [o for o in e["owners"] if o != self.owner]
                if not e["owners"]:
                    del self.db[q]
            return "0 "
        q = a[1] if c == "INPUT" and len(a) > 1 else a[0]
        if q not in self.db:
            return "10 %s doesn't exist" % q
        if c == "INPUT":
            if a[0] not in self.PRIO:
                return '20 "%s" is not a valid priority' % a[0]
            t = self.t[q]
            vis = True
            if t["type"] != "error":
                vis = self.PRIO.index(a[0]) >= self.PRIO.index(self.threshold) and (self.reshow or not self.db[q]["seen"])
            vis = vis and self.interactive
            self.busy.append((q, vis))
            return "0 question will be asked" if vis else "30 question skipped"
        if c == "GET":
            return "0 " + self.get(q)
        if c == "SET":
            self.db[q]["value"] = rest.partition(" ")[2]
            return "0 value set"
        if c == "RESET":
            self.db[q]["value"] = self.t[q].get("default")
            self.db[q]["seen"] = False
            return "0 "
        if c == "FSET":
            if a[1] == "seen":
                self.db[q]["seen"] = a[2] == "true"
            return "0 " + a[2]
        if c == "FGET":
            return "0 " + ("true" if self.db[q]["seen"] else "false")
        return "20 Unsupported command"

    def finish(self):
        for q in self.used:
            if q in self.db:
                self.db[q]["seen"] = True


class World:
    def __init__(self, bdir, repo):
        self.bdir, self.repo = bdir, repo
        self.info = json.load(open(bdir + "/info.json"))
        self.root = tempfile.mkdtemp(prefix="pkg-")
        os.chmod(self.root, 0o755)
        self.home = self.info["localstatedir"]
        self.uid = 65534 if os.geteuid() == 0 else None
        try:
            subprocess.run(["/bin/true"], user=self.uid, group=self.uid, extra_groups=[] if self.uid else None)
        except OSError:
            self.uid = None
        os.mkdir(self.root + "/bin")
        shutil.copy(bdir + "/tool", self.root + "/bin/.tool")
        for t in TOOLS:
            os.symlink(".tool", self.root + "/bin/" + t)
        for b in BIN:
            shutil.copy(bdir + "/" + b, self.root + "/bin/" + b)
        os.mkdir(self.root + "/scripts")
        self.tmpl = {}
        for p in PKGS:
            for k in ("config", "postinst", "postrm"):
                t = open("%s/debian/%s.%s" % (repo, p, k)).read()
                t = re.sub(r"(?<![\w.])/(var/lib|etc|usr/bin/openskyd|home|run|var/run|tmp|lib/systemd)", self.root + r"/\1", t)
                f = "%s/scripts/%s.%s" % (self.root, p, k)
                open(f, "w").write(t)
                os.chmod(f, 0o755)
            self.tmpl[p] = templates("%s/debian/%s.templates" % (repo, p))
        self.runs = 0
        if self.uid:
            for d, ds, fs in os.walk(self.root):
                for x in [d] + [os.path.join(d, f) for f in fs]:
                    os.lchown(x, self.uid, self.uid)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def mk(self, d):
        p = self.root
        for part in d.strip("/").split("/"):
            p += "/" + part
            if not os.path.isdir(p):
                os.mkdir(p)
                if self.uid:
                    os.chown(p, self.uid, self.uid)

    def put(self, st):
        """Lay out a state on disk"""
        for x in ("log", "accounts", "owners", "outside", "override"):
            if os.path.exists(self.root + "/" + x):
                os.unlink(self.root + "/" + x)
        for d in ("var", "etc", "usr", "home", "run", "tmp", "lib"):
            shutil.rmtree(self.root + "/" + d, ignore_errors=True)
        self.mk(os.path.dirname(self.home))
        self.mk(self.info["sysconfdir"] + "/conf.d")
        self.mk("usr/bin")
        self.mk("tmp")

        def w(f, t, mode=0o644):
            with open(self.root + "/" + f, "w") as h:
                h.write(t)
            os.chmod(self.root + "/" + f, mode)
            if self.uid:
                os.chown(self.root + "/" + f, self.uid, self.uid)
        for f, (c, mode) in sorted(st["files"].items()):
            if c is None:
                self.mk(f)
                os.chmod(self.root + f, mode)
            else:
                w(f.lstrip("/"), c, mode)
        w("log", "")
        w("accounts", "".join(a + "\n" for a in st["accounts"]))
        if st.get("override"):
            w("override", "")
        for p in PKGS:
            if st["pkgs"].get(p) == "installed":
                w(self.info["inst"][p]["path"].lstrip("/"), "")

    def take(self, st):
        """Read a state back from disk"""
        out = dict(st)
        files = {}
        top = self.root + os.path.dirname(self.home)
        for base in (top, self.root + self.info["sysconfdir"]):
            for d, ds, fs in os.walk(base):
                if d != top:
                    files[d[len(self.root):]] = [None, stat.S_IMODE(os.stat(d).st_mode)]
                for f in fs:
                    p = d + "/" + f
                    files[p[len(self.root):]] = [open(p, errors="replace").read(), stat.S_IMODE(os.stat(p).st_mode)]
        out["files"] = {k: v for k, v in files.items() if not k.startswith(self.info["sysconfdir"])}
        own = dict(st["owners"])
        if os.path.exists(self.root + "/owners"):
            for l in open(self.root + "/owners"):
                o, _, f = l.rstrip("\n").partition(" ")
                if o == ">":
                    f, _, t = f.partition(" ")
                    if f in own and t not in out["files"]:
                        t = t.rstrip("/") + "/" + os.path.basename(f)
                    if f in own:
                        own[t] = own.pop(f)
                else:
                    own[f] = o
        out["owners"] = {f: o for f, o in own.items() if f in out["files"]}
        out["accounts"] = sorted(l.strip() for l in open(self.root + "/accounts"))
        if os.path.exists(self.root + "/outside"):
            raise Violation("a script acts outside the directory of the package: " + open(self.root + "/outside").read().strip())
        return out

    def log(self):
        return open(self.root + "/log").read().splitlines()

    def script(self, kind, pkg, args, fe, env=None, stop=None, how=None):
        """Run a script; returns its exit status (None: killed)"""
        self.runs += 1
        e = dict(PATH=self.root + "/bin:/usr/bin:/bin", HOME="/nonexistent", LANG="C", DEBIAN_HAS_FRONTEND="1", PKG_ROOT=self.root,
                 DPKG_MAINTSCRIPT_PACKAGE=pkg, PERL_DL_NONLAZY="1", DPKG_MAINTSCRIPT_NAME=kind)
        e.update(env or {})
        if stop is not None:
            e.update(PKG_STOP=str(stop), PKG_HOW=how)
        f = "%s/scripts/%s.%s" % (self.root, pkg, kind)
        err = tempfile.TemporaryFile()
        kw = dict(user=self.uid, group=self.uid, extra_groups=[]) if self.uid else {}
        p = subprocess.Popen([f] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=e, cwd=self.root,
                             start_new_session=True, **kw)
        buf = b""
        try:
            end = time.time() + 60
            while True:
                while b"\n" not in buf:
                    r, _, _ = select.select([p.stdout], [], [], max(0, end - time.time()))
                    if not r:
                        raise Violation("%s of %s does not end" % (kind, pkg))
                    d = os.read(p.stdout.fileno(), 65536)
                    if not d:
                        break
                    buf += d
                if b"\n" not in buf:
                    break
                line, _, buf = buf.partition(b"\n")
                line = line.decode("utf8", "replace")
                if line.strip() == "STOP":
                    continue
                if not line.strip():
                    continue
                a = fe.command(line)
                try:
                    p.stdin.write((a + "\n").encode())
                    p.stdin.flush()
                except BrokenPipeError:
                    pass
            try:
                p.stdin.close()
            except BrokenPipeError:
                pass
            rc = p.wait(60)
        except BaseException:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            raise
        finally:
            p.stdout.close()
        err.seek(0)
        self.err = err.read().decode("utf8", "replace")
        err.close()
        if rc == 0:
            fe.finish()
        return rc if rc >= 0 else None

    def daemon(self, st, pkg, answer=None):
        """Start the package's daemon on the current state: what it uses, or None if it refuses to"""
        self.runs += 1
        kw = dict(user=self.uid, group=self.uid, extra_groups=[]) if self.uid else {}
        b = self.info["inst"][pkg]["build"]
        p = subprocess.run([self.root + "/bin/" + b] + (["answer=%d" % answer] if answer is not None else []), cwd=self.root, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **kw)
        out = p.stdout.decode("utf8", "surrogateescape")
        r = dict(re.findall(r"^(username|device|position|input|serial|requested|end)(?:=(.*))?$", out, re.M))
        if "end" not in r:
            return None, out
        return r, out


EMPTY = dict(files={}, owners={}, accounts=[], db={}, pkgs={}, override=False)


def clone(st):
    return json.loads(json.dumps(st))


class Job:
    def __init__(self, w, prm):
        self.w, self.prm = w, prm
        self.labels = {}
        self.evals = 0

    # -- steps --
    def dialogue(self, st, pkg, args, ask, **kw):
        fe = Frontend(st["db"], self.w.tmpl[pkg], pkg, ask, **kw)
        fe.load()
        if self.w.script("config", pkg, args, fe) != 0:
            raise Violation("the configuration script of %s fails: %s" % (pkg, self.w.err[-300:]))
        return fe

    def configure(self, st, pkg, ask, old="", reconf=False, stop=None, how=None, twice=True, **kw):
        """What dpkg and debconf do to configure a package. Returns the dialogue, the exit status and the state"""
        st = clone(st)
        if reconf:
            fe = self.dialogue(st, pkg, ["reconfigure", old], ask, reshow=True, **kw)
        else:
            fe = self.dialogue(st, pkg, ["configure", old], ask, **kw)
            if twice:
                def again(q, v):
                    raise Violation("the package asks for the %s again" % q)
                ia = kw.get("interactive", True)
                mand = [k for k in KEYS[:3] if not meaning(k, fe.get("openskyd/" + k))[0]]
                fe2 = self.dialogue(st, pkg, ["configure", old], again if ia and not mand else ask, **kw)
        st["pkgs"][pkg] = "installed"
        self.w.put(st)
        f2 = Frontend(st["db"], self.w.tmpl[pkg], pkg, lambda q, v: v, interactive=False)
        rc = self.w.script("postinst", pkg, ["configure", old], f2, env=dict(DEBCONF_RECONFIGURE="1") if reconf else None, stop=stop, how=how)
        return fe, rc, self.w.take(st)

    def value(self, st, pkg, key):
        q = "openskyd/" + key
        e = st["db"].get(q)
        if e is None:
            return ""
        return e["value"] if e["value"] is not None else (self.w.tmpl[pkg][q].get("default") or "")

    def expect(self, st, pkg):
        return {k: meaning(k, self.value(st, pkg, k)) for k in KEYS}

    def check_home(self, st, pkg):
        home = self.w.home
        i = self.w.info["inst"][pkg]
        if i["path"] != i["exec"]:
            raise Violation("%s installs %s, its service starts %s" % (pkg, i["path"], i["exec"]))
        if "passwd " + i["user"] not in st["accounts"]:
            raise Violation("the user of the service of %s does not exist" % pkg)
        if st["override"]:
            return
        for f in (home, home + "/conf.d"):
            if st["owners"].get(f) != i["user"]:
                raise Violation("%s does not belong to the user of the service of %s" % (f, pkg))
        if st["files"][home][1] & 0o7007 != 0o2000 or st["files"][home][1] & 0o770 != 0o750:
            raise Violation("%s has the mode %o" % (home, st["files"][home][1]))
        for f, (c, mode) in st["files"].items():
            if c is not None and st["owners"].get(f) != i["user"] and not mode & 0o004:
                raise Violation("the daemon of %s cannot read %s" % (pkg, f))

    def check_boot(self, st, pkg, answer, want_serial, want_request):
        """The daemon uses exactly what the database has"""
        self.w.put(st)
        r, out = self.w.daemon(st, pkg, answer)
        x = self.expect(st, pkg)
        miss = [k for k in KEYS[:3] if not x[k][0]]
        if miss:
            if r is not None:
                raise Violation("the daemon of %s works although the %s is not known" % (pkg, miss[0]))
            return None, self.w.take(st)
        if r is None:
            raise Violation("the daemon of %s refuses what was entered: %s" % (pkg, out.strip()[-200:]))
        pos = "%.17g %.17g %.17g" % tuple(x[k][2] for k in KEYS[:3])
        want = dict(position=pos, username=x["username"][2], input="%d %s" % (x["port"][2], x["host"][2]))
        dev = BIN[self.w.info["inst"][pkg]["build"]][1]
        want["device"] = "hptoa" if dev == "feeder" and self.value(st, pkg, "dump1090branch") == "hptoa" else dev
        want["requested"] = "1" if want_request else "0"
        want["serial"] = str(want_serial) if want_serial is not None else None
        for k, v in want.items():
            if r.get(k) != v:
                raise Violation("the daemon of %s uses %s %s, entered was %s" % (pkg, k, r.get(k), v))
        self.evals += 1
        return r, self.w.take(st)

    def entered(self, st, pkg):
        return meaning("serial", self.value(st, pkg, "serial"))[2]

    # -- interface of the exploration: roots(), actions(state), do(state, action) --
    def fingerprint(self, st):
        return hashlib.md5(json.dumps(st, sort_keys=True).encode()).hexdigest()


class Flat(Job):
    """One action each from the initial state"""
    def roots(self):
        return [clone(EMPTY)]

    def actions(self, st):
        return self.cases() if not st.get("done") else []


def asker(script, asked):
    """Answers from lists; the last value of a list is given again and again"""
    def ask(q, v):
        asked.append(q)
        l = script[q]
        n = asked.count(q) - 1
        return l[min(n, len(l) - 1)]
    return ask


class Dialogue(Flat):
    """All sequences of answers for one question"""
    def cases(self):
        key = self.prm["key"]
        vs = VALUES[key]
        good = [v for v in vs if meaning(key, v)[1]][0]
        n = int(self.prm["len"])
        out = []
        for l in range(0, n):
            for s in itertools.product([v for v in vs if not meaning(key, v)[1]], repeat=l):
                if l == 0 or l < n - 1 or True:
                    out += [list(s) + [v] for v in (vs if l == n - 1 or l == 0 else [good])]
        return [s if meaning(key, s[-1])[1] else s + [good] for s in out]

    def do(self, st, seq):
        key, pkg = self.prm["key"], PKGS[int(self.prm["pkg"])]
        st = clone(st)
        asked = []
        has = key in self.keys(pkg)
        fe, rc, st = self.configure(st, pkg, asker({**{k: [v] for k, v in GOOD.items()}, key: seq}, asked), twice=len(seq) == 1)
        self.check_asked(pkg, fe, {**{k: [v] for k, v in GOOD.items()}, key: seq})
        if rc != 0:
            raise Violation("the installation of %s fails: %s" % (pkg, self.w.err[-300:]))
        self.check_home(st, pkg)
        e = self.entered(st, pkg)
        self.check_boot(st, pkg, 4242, e if e is not None else 4242, e is None)
        return dict(done=1, key=key, seq=seq, value=self.value(st, pkg, key))

    def keys(self, pkg):
        """the questions that the package has"""
        return [k for k in KEYS if k != "dump1090branch" or pkg == "opensky-feeder"]

    def check_asked(self, pkg, fe, script):
        """Every question is asked until the answer is accepted; an error is shown exactly for what was refused"""
        todo = set(self.keys(pkg))
        pos = {k: 0 for k in KEYS}
        for n, blk in enumerate(fe.blocks):
            errs = {q.split("/")[1][:-len("format")] for q, v in blk if v is None and q.endswith("format")}
            qs = [q.split("/")[1] for q, v in blk if v is not None]
            if errs - set(KEYS) or [q for q, v in blk if v is None and not q.endswith("format")]:
                raise Violation("%s shows %s" % (pkg, blk))
            if len(set(qs)) != len(qs) or set(qs) != todo:
                raise Violation("%s asks for %s where %s are to be asked" % (pkg, sorted(qs), sorted(todo)))
            if errs != (todo if n else set()):
                raise Violation("%s shows errors for %s where %s were refused" % (pkg, sorted(errs), sorted(todo if n else [])))
            nxt = fe.blocks[n + 1] if n + 1 < len(fe.blocks) else []
            refused = {q.split("/")[1] for q, v in nxt if v is not None}
            for q, v in blk:
                k = q.split("/")[1]
                if v is None:
                    continue
                may, must, _ = meaning(k, v)
                if k in refused and must:
                    raise Violation("%s refuses the %s '%s'" % (pkg, k, v))
                if k not in refused and not may:
                    raise Violation("%s accepts the %s '%s'" % (pkg, k, v))
            todo = refused
        if todo:
            raise Violation("%s does not ask for %s" % (pkg, sorted(todo)))


class Combos(Dialogue):
    """All subsets of questions that are answered wrongly at first, or twice"""
    def cases(self):
        bad = [k for k in BAD]
        out = []
        for n in itertools.product(range(int(self.prm["times"]) + 1), repeat=len(bad)):
            out.append(list(n))
        return out

    def do(self, st, n):
        pkg = PKGS[int(self.prm["pkg"])]
        st = clone(st)
        s = {k: [v] for k, v in GOOD.items()}
        for k, t in zip(BAD, n):
            s[k] = [BAD[k]] * t + s[k]
        fe, rc, st = self.configure(st, pkg, asker(s, []), twice=False)
        self.check_asked(pkg, fe, s)
        if rc != 0:
            raise Violation("the installation of %s fails: %s" % (pkg, self.w.err[-300:]))
        self.check_boot(st, pkg, 4242, 4242, True)
        return dict(done=1, n=n)


class Preseed(Dialogue):
    """Front ends that do not ask, with all combinations of values that are there beforehand"""
    VAL = {"latitude": "48.1", "longitude": "11.5", "altitude": "500", "username": "bob", "serial": "7", "port": "30006"}

    def cases(self):
        out = []
        ks = list(BAD)
        for front in ("noninteractive", "critical", "high"):
            for c in itertools.product(range(3), repeat=len(ks)):
                if sum(1 for x in c if x == 2) <= int(self.prm["bad"]) and sum(1 for x in c if x == 0) <= int(self.prm["miss"]):
                    out.append([front, list(c), ""])
                    if sum(c) % 5 == 0:
                        out.append([front, list(c), "2.1.6-1"])
        return out[int(self.prm.get("part", 0))::int(self.prm.get("parts", 1))]

    def do(self, st, case):
        front, c, old = case
        pkg = PKGS[int(self.prm["pkg"])]
        st = clone(st)
        pre = {}
        for q in self.w.tmpl[pkg]:
            st["db"][q] = dict(value=self.w.tmpl[pkg][q].get("default"), seen=False, owners=[pkg])
        for k, x in zip(BAD, c):
            if x:
                pre[k] = self.VAL[k] if x == 1 else BAD[k]
                st["db"]["openskyd/" + k] = dict(value=pre[k], seen=True, owners=[pkg])
        asked = []
        kw = dict(interactive=front != "noninteractive", threshold="critical" if front == "critical" else "high")
        fe, rc, st = self.configure(st, pkg, asker({k: [v] for k, v in GOOD.items()}, asked), old=old, **kw)
        if rc != 0:
            raise Violation("the installation of %s fails: %s" % (pkg, self.w.err[-300:]))
        for k in BAD:
            v = self.value(st, pkg, k)
            may, must, _ = meaning(k, v)
            if k in pre and meaning(k, pre[k])[1] and v != pre[k]:
                raise Violation("%s gives up the %s '%s' for '%s'" % (pkg, k, pre[k], v))
            if not may and v != "":
                raise Violation("%s keeps the %s '%s'" % (pkg, k, v))
            if not may and front != "noninteractive":
                raise Violation("%s does not ask for the missing %s" % (pkg, k))
            if k not in pre and front == "noninteractive" and v != (self.w.tmpl[pkg]["openskyd/" + k].get("default") or ""):
                raise Violation("%s makes up the %s '%s'" % (pkg, k, v))
        e = self.entered(st, pkg)
        self.check_boot(st, pkg, 4242, e if e is not None else 4242, e is None)
        return dict(done=1, c=case)


class Life(Job):
    """All histories of a system on which feeder packages are installed"""
    VER = "2.1.7-4"

    def roots(self):
        out = []
        for o in (False, True):
            st = clone(EMPTY)
            st.update(override=o, ident=None, old=False, user="", depth=0)
            out.append(st)
        return out[:1] if not int(self.prm.get("override", 0)) else out[1:]

    def pkgs(self):
        return [PKGS[int(x)] for x in self.prm["pkgs"].split("+")]

    def actions(self, st):
        if st["depth"] >= int(self.prm["depth"]):
            return []
        out = []
        inst = [p for p in PKGS if st["pkgs"].get(p) == "installed"]
        if st["old"]:
            return [["upgrade", inst[0]]]
        for p in self.pkgs():
            if p not in inst:
                out += [["install", p, s] for s in (["", "5"] if "openskyd/serial" not in st["db"] or not st["db"]["openskyd/serial"]["seen"] else [""])]
            else:
                out += [["upgrade", p], ["boot", p], ["remove", p]]
                cur, usr = self.value(st, p, "serial"), self.value(st, p, "username")
                out += [["reconf", p, s, u] for s, u in (("", usr), ("5", usr), ("-6", usr), (cur, "ann"), (cur, ""))]
                if int(self.prm.get("rich", 0)):
                    out += [["reconf", p, s, u] for s in ("4242", "4294967295", "0") for u in (usr, "ann")]
                if any(f.endswith("/05-serial.conf") for f in st["files"]):
                    out += [["old", p], ["older", p]]
            if st["pkgs"].get(p) == "config-files":
                out.append(["purge", p])
        return out

    def fingerprint(self, st):
        s = {k: v for k, v in st.items() if k != "depth"}
        return super().fingerprint(s)

    def same_but(self, a, b, what):
        for k in ("files", "owners", "accounts"):
            if a[k] != b[k]:
                raise Violation("%s changes the %s: %s" % (what, k, [x for x in set(map(str, dict(a[k]).items() if isinstance(a[k], dict) else a[k])) ^ set(map(str, dict(b[k]).items() if isinstance(b[k], dict) else b[k]))][:4]))

    def do(self, st, act):
        st0 = st
        st = clone(st)
        kind, p = act[0], act[1]
        self.labels[kind] = self.labels.get(kind, 0) + 1
        depth = st["depth"] + 1
        if kind == "install":
            for o in PKGS:
                if st["pkgs"].get(o) == "installed":   # replaced: they conflict
                    st = self.postrm(st, o, "remove")
                    st["pkgs"][o] = "config-files"
            old = self.VER if st["pkgs"].get(p) == "config-files" else ""
            s = {**{k: [v] for k, v in GOOD.items()}, "serial": [act[2]], "username": [self.value(st, p, "username") if "openskyd/username" in st["db"] else "bob"]}
            before = clone(st)
            fe, rc, st = self.configure(st, p, asker(s, []), old=old)
            self.after(before, st, p, rc, "the installation")
        elif kind == "upgrade":
            before = clone(st)
            if st["old"]:
                st["old"] = False

            def ask(q, v):
                raise Violation("the upgrade of %s asks for the %s" % (p, q))
            fe, rc, st = self.configure(st, p, ask, old="2.1.5-1" if before["old"] else self.VER)
            if fe.blocks:
                raise Violation("the upgrade of %s shows %s" % (p, fe.blocks))
            self.after(before, st, p, rc, "the upgrade")
            if any(f.endswith("/10-serial.conf") for f in st["files"]):
                raise Violation("the upgrade of %s leaves the number that was assigned where it overrides one that is entered" % p)
            if not before["old"]:
                self.same_but({k: before[k] for k in ("files", "owners", "accounts")}, st, "the upgrade of %s" % p)
        elif kind == "reconf":
            before = clone(st)
            usr = self.value(st, p, "username")
            s = {**{k: [v] for k, v in GOOD.items()}, "serial": [act[2]], "username": [act[3]]}
            fe, rc, st = self.configure(st, p, asker(s, []), old=self.VER, reconf=True)
            qs = {q.split("/")[1] for b in fe.blocks for q, v in b if v is not None}
            ks = set(KEYS) - (set() if p == "opensky-feeder" else {"dump1090branch"})
            if qs != ks:
                raise Violation("the reconfiguration of %s asks for %s" % (p, sorted(qs)))
            changed = any(q == "openskyd/usernamechanged" for b in fe.blocks for q, v in b)
            if changed != (usr != "" and act[3] != usr):
                raise Violation("the reconfiguration of %s from user '%s' to '%s' %s about the change" % (p, usr, act[3], "warns" if changed else "does not warn"))
            self.after(before, st, p, rc, "the reconfiguration")
        elif kind == "boot":
            e = self.entered(st, p)
            want = e if e is not None else st["ident"] if st["ident"] is not None else 4242
            r, st2 = self.check_boot(st, p, 4242, want, e is None and st["ident"] is None)
            if e is None and st["ident"] is None:
                st2["ident"] = 4242
                new = set(st2["files"]) - set(st["files"])
                for f in new:
                    st2["owners"][f] = self.w.info["inst"][p]["user"]
            else:
                self.same_but(st, st2, "the start of the daemon")
            st = st2
        elif kind in ("old", "older"):
            # an older version of the package stored the number elsewhere (and did not know the question for it)
            if kind == "older":
                st["db"]["openskyd/serial"] = dict(value=None, seen=False, owners=[p])
            f = [f for f in st["files"] if f.endswith("/05-serial.conf")][0]
            g = f.replace("05-", "10-")
            st["files"][g], st["owners"][g] = st["files"].pop(f), st["owners"].pop(f, None)
            st["old"] = True
        elif kind == "remove":
            before = clone(st)
            st = self.postrm(st, p, "remove")
            self.same_but(before, st, "the removal of %s" % p)
            st["pkgs"][p] = "config-files"
        elif kind == "purge":
            before = clone(st)
            st = self.postrm(st, p, "purge")
            del st["pkgs"][p]
            other = [o for o in PKGS if st["pkgs"].get(o) == "installed"]
            for q, e in st["db"].items():
                if p in e["owners"]:
                    raise Violation("the purge of %s leaves %s" % (p, q))
            if other:
                self.same_but(before, st, "the purge of %s while %s is installed" % (p, other[0]))
            else:
                left = [f for f in st["files"] if f.startswith(self.w.home)]
                if left:
                    raise Violation("the purge of %s leaves %s" % (p, left))
                if st["accounts"]:
                    raise Violation("the purge of %s leaves the accounts %s" % (p, st["accounts"]))
                st["ident"] = None
            self.evals += 1
        st["depth"] = depth
        return st

    def postrm(self, st, pkg, how):
        st = clone(st)
        st["pkgs"][pkg] = "removing"
        if how == "purge":
            st["pkgs"][pkg] = "config-files"
        self.w.put(st)
        fe = Frontend(st["db"], self.w.tmpl[pkg], pkg, lambda q, v: v, interactive=False)
        rc = self.w.script("postrm", pkg, [how], fe)
        if rc != 0:
            raise Violation("the postrm script of %s fails: %s" % (pkg, self.w.err[-300:]))
        return self.w.take(st)

    def after(self, before, st, p, rc, what):
        if rc != 0:
            raise Violation("%s of %s fails: %s" % (what, p, self.w.err[-300:]))
        self.check_home(st, p) if not st["override"] else None
        log = self.w.log()
        if st["override"] and any(l.split(" ")[0] in ("chown", "chmod") for l in log):
            raise Violation("%s of %s changes the owner or mode which the administrator has set" % (what, p))
        for k in KEYS:
            if k == "dump1090branch" and p != "opensky-feeder":
                continue
            if not meaning(k, self.value(st, p, k))[0]:
                raise Violation("%s of %s leaves the %s '%s'" % (what, p, k, self.value(st, p, k)))
        # the daemon uses what was entered; the number that was assigned to the sensor stays with it
        e = self.entered(st, p)
        want = e if e is not None else st["ident"]
        self.check_boot(st, p, None, want, want is None)


class Crash(Life):
    """Interruption of the scripts at each of their commands"""
    SCEN = ["fresh", "fresh5", "upgrade", "oldupgrade", "reconf", "reconf5", "purge"]

    def roots(self):
        st = clone(EMPTY)
        st.update(ident=None, old=False, user="", depth=0)
        return [dict(st, done=0)]

    def actions(self, st):
        if st.get("done"):
            return []
        return [[s, p, how, n] for s in self.SCEN for p in self.pkgs() for how in ("kill", "fail") for n in range(int(self.prm["max"]))]

    def do(self, st, act):
        scen, p, how, n = act
        st = clone(st)
        del st["done"]
        for a in {"fresh": [], "fresh5": [], "purge": [["install", p, ""], ["boot", p], ["remove", p]],
                  "oldupgrade": [["install", p, ""], ["boot", p], ["old", p]]}.get(scen, [["install", p, ""], ["boot", p]]):
            st = self.cached(st, a)
        serials = sorted(c for f, (c, m) in st["files"].items() if f.endswith("-serial.conf"))
        if scen == "purge":
            if how == "fail":
                return dict(done=1, trivial=1)
            fe = Frontend(st["db"], self.w.tmpl[p], p, lambda q, v: v, interactive=False)
            self.w.put(st)
            rc = self.w.script("postrm", p, ["purge"], fe, stop=n, how=how)
            if rc is not None:
                return dict(done=1, trivial=1)
            mid = self.w.take(st)
            if "openskyd/latitude" not in mid["db"]:
                fe.load()
                mid["db"] = fe.db
            self.do_purge_again(mid, p)
            self.evals += 1
            return dict(done=1, scen=scen, n=n)
        s = {**{k: [v] for k, v in GOOD.items()}, "serial": ["5" if scen.endswith("5") else ""]}
        args = dict(old="" if scen.startswith("fresh") else "2.1.5-1" if scen == "oldupgrade" else self.VER, reconf=scen.startswith("reconf"))
        fe, rc, mid = self.configure(st, p, asker(s, []), stop=n, how=how, **args)
        if len(self.w.log()) <= n:
            return dict(done=1, trivial=1)
        now = sorted(c for f, (c, m) in mid["files"].items() if f.endswith("-serial.conf"))
        if now != serials:
            raise Violation("the interrupted configuration of %s loses the serial number" % p)
        if rc != 0:
            # dpkg leaves the package unconfigured; it may be given up now
            gone = clone(mid)
            gone["pkgs"][p] = "config-files"
            self.do_purge_again(gone, p)
            # ... or configured again
            fe, rc, mid = self.configure(mid, p, asker(s, []), old=args["old"])
            if rc != 0:
                raise Violation("%s cannot be configured after its configuration was interrupted: %s" % (p, self.w.err[-300:]))
        clean = self.clean(st, p, s, args)
        for k in ("files", "owners", "accounts", "db"):
            if mid[k] != clean[k]:
                raise Violation("the configuration of %s, %s at command %d and completed, has other %s: %s" % (p, "killed" if how == "kill" else "failed", n, k,
                                [(x, mid[k].get(x), clean[k].get(x)) for x in sorted(set(mid[k]) | set(clean[k])) if mid[k].get(x) != clean[k].get(x)][:3] if isinstance(mid[k], dict) else (mid[k], clean[k])))
        self.evals += 1
        return dict(done=1, scen=scen, how=how, n=n)

    cache = {}

    def cached(self, st, a):
        k = self.fingerprint(st) + str(a)
        if k not in self.cache:
            self.cache[k] = json.dumps(Life.do(self, st, a))
        return json.loads(self.cache[k])

    def clean(self, st, p, s, args):
        k = self.fingerprint(st) + str(args) + json.dumps(s)
        if k not in self.cache:
            fe, rc, out = self.configure(st, p, asker(s, []), **args)
            if rc != 0:
                raise Violation("the configuration of %s fails: %s" % (p, self.w.err[-300:]))
            self.cache[k] = json.dumps(out)
        return json.loads(self.cache[k])

    def do_purge_again(self, mid, p):
        mid["depth"] = 0
        Life.do(self, mid, ["purge", p])


class Board(Flat):
    """openskyd-start.sh: all kernels, boards and states of the extension slots"""
    KERNELS = ["2.6.39", "3.8.13-bone70", "3.10.0", "4.4.9-ti-r25", "4.19.94", "5.10.168-ti-r71", "6.1.0", "10.2.0"]
    COMPAT = {"black": "ti,am335x-bone-black\0ti,am335x-bone\0ti,am33xx\0", "white": "ti,am335x-bone\0ti,am33xx\0",
              "other": "acme,board\0ti,am33xx\0", None: None}
    DMESG = {"black": "[    0.1] x\n[    0.2] bone-capemgr bone_capemgr.9: compatible-baseboard=ti,beaglebone-black\n[    0.3] y\n",
             "white": "[    0.1] x\n[    0.2] bone-capemgr bone_capemgr.9: compatible-baseboard=ti,beaglebone\n",
             "other": "[    0.2] bone-capemgr bone_capemgr.9: compatible-baseboard=acme,board\n", None: "[    0.1] x\n"}

    def cases(self):
        out = []
        for k in self.KERNELS:
            for c in self.COMPAT:
                for d in self.DMESG:
                    for s in range(16):
                        if int(k.split(".")[0]) < 4 or s in (0, 15):
                            out.append([k, c, d, s, 0])
                        if s == 15:
                            out.append([k, c, d, s, 1])    # the daemon fails
        return out

    def do(self, st, case):
        kernel, compat, dmesg, slots, fails = case
        w = self.w
        for d in ("sys", "usr"):
            shutil.rmtree(w.root + "/" + d, ignore_errors=True)
        w.put(EMPTY)
        w.mk("usr/bin")
        w.mk("sys/firmware/devicetree/base")
        cape = "sys/devices/bone_capemgr.9"
        w.mk(cape)
        if not os.path.exists(w.root + "/usr/bin/openskyd-rc"):
            os.symlink(w.root + "/bin/.tool", w.root + "/usr/bin/openskyd-rc")

        def f(name, text):
            with open(w.root + "/" + name, "w") as h:
                h.write(text)
            os.chmod(w.root + "/" + name, 0o666)
        if self.COMPAT[compat] is not None:
            f("sys/firmware/devicetree/base/compatible", self.COMPAT[compat])
        f("dmesg", self.DMESG[dmesg])
        major = int(kernel.split(".")[0])
        board = compat if major >= 4 else dmesg
        names = ["BB-UART2", "BB-UART5", "BB-B-Radarcape", "BB-W-Radarcape"]
        has = [n for i, n in enumerate(names) if slots >> i & 1]
        f(cape + "/slots.content", " 0: 54:PF---\n" + "".join(" %d: ff:P-O-L Override Board Name,00A0,Override Manuf,%s\n" % (i + 4, n) for i, n in enumerate(has)))
        os.mkfifo(w.root + "/" + cape + "/slots")
        os.chmod(w.root + "/" + cape + "/slots", 0o666)
        fd = os.open(w.root + "/" + cape + "/slots", os.O_RDWR | os.O_NONBLOCK)
        try:
            rc = self.plain(w.repo + "/openskyd-arch/openskyd-start.sh", [], dict(PKG_KERNEL=kernel, PKG_DAEMON=str(fails)))
            try:
                wrote = os.read(fd, 65536).decode().split("\n")[:-1]
            except BlockingIOError:
                wrote = []
        finally:
            os.close(fd)
            os.unlink(w.root + "/" + cape + "/slots")
        started = [l for l in w.log() if l.split(" ")[0] == "openskyd-rc"]
        what = "kernel %s, device tree %s, boot messages %s, slots %s" % (kernel, compat, dmesg, has)
        if board not in ("black", "white"):
            if started or rc == 0 or wrote:
                raise Violation("on an unknown board (%s) the script starts %s, writes %s and exits with %s" % (what, started, wrote, rc))
            return dict(done=1, case=case)
        want = ["openskyd-rc --black"] if board == "black" else ["openskyd-rc"]
        if [l.strip() for l in started] != want or w.log()[-1] != started[0]:
            raise Violation("%s: the script starts %s instead of %s" % (what, started, want))
        need = sorted(n for n in ("BB-UART2", "BB-UART5", "BB-%s-Radarcape" % ("B" if board == "black" else "W")) if n not in has) if major < 4 else []
        if sorted(wrote) != need:
            raise Violation("%s: the script enables %s instead of %s" % (what, wrote, need))
        self.evals += 1
        return dict(done=1, case=case)

    def plain(self, script, args, env, call=None):
        """Run a script that does not talk to debconf; with call: a function of it"""
        w = self.w
        w.runs += 1
        t = open(script).read()
        t = re.sub(r"(?<![\w.])/(sys/|usr/bin/openskyd|lib/systemd|usr/lib/systemd|etc/|var/lib)", w.root + r"/\1", t)
        f = w.root + "/scripts/plain"
        open(f, "w").write(t + ("\n%s\n" % call if call else ""))
        os.chmod(f, 0o755)
        e = dict(PATH=w.root + "/bin:/usr/bin:/bin", HOME="/nonexistent", LANG="C", PKG_ROOT=w.root)
        e.update(env)
        kw = dict(user=w.uid, group=w.uid, extra_groups=[]) if w.uid else {}
        sh = [] if t.startswith("#!") and not call else ["bash" if call else "/bin/sh"]
        try:
            p = subprocess.run(sh + [f] + args, env=e, cwd=w.root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               start_new_session=True, timeout=60, **kw)
        except subprocess.TimeoutExpired:
            raise Violation("%s does not end" % os.path.basename(script))
        if os.path.exists(w.root + "/outside"):
            raise Violation("%s acts outside of what belongs to the package: %s" % (os.path.basename(script), open(w.root + "/outside").read().strip()))
        return p.returncode


class Service(Board):
    """The scripts of the packages of the Radarcape, in all states that the service can be in"""
    def roots(self):
        return [dict(inst=0, unit="")]

    def actions(self, st):
        out = [["install"]] if not st["inst"] else [["upgrade"], ["remove"], ["start"], ["stop"], ["enable"], ["disable"], ["reboot"]]
        return out

    def fingerprint(self, st):
        s = dict(st)
        if s["unit"]:
            l, e, a, v = s["unit"].split()
            s["unit"] = (l, e, a, int(v) - s["inst"] if a == "1" else 0)
        s["inst"] = bool(s["inst"])
        return super().fingerprint(s)

    def do(self, st, act):
        st = dict(st)
        w = self.w
        kind, name = self.prm["kind"], self.prm["name"]
        d = "lib/systemd/system" if kind == "opkg" else "usr/lib/systemd/system"
        for x in ("lib", "usr", "units"):
            shutil.rmtree(w.root + "/" + x, ignore_errors=True)
        w.put(EMPTY)
        w.mk(d)
        w.mk("units")

        def unpack(v):
            with open("%s/%s/%s.service" % (w.root, d, name), "w") as h:
                h.write("version %d\n" % v)
        if st["unit"]:
            with open(w.root + "/units/" + name, "w") as h:
                h.write(st["unit"])
            os.chmod(w.root + "/units/" + name, 0o666)
            if w.uid:
                os.chown(w.root + "/units/" + name, w.uid, w.uid)
        if st["inst"]:
            unpack(st["inst"])

        def opkg(s, arg):
            if self.plain(w.repo + "/openskyd-opkg/CONTROL/" + s, [arg], {}) != 0:
                raise Violation("the %s script fails at %s" % (s, act[0]))

        def arch(s):
            if self.plain("%s/openskyd-arch/%s.install" % (w.repo, name), [], {}, call=s) != 0:
                raise Violation("%s fails at %s" % (s, act[0]))

        def state():
            l, e, a, v = open(w.root + "/units/" + name).read().split()
            return dict(enabled=e == "1", active=a == "1", version=int(v))
        was = state() if st["unit"] else None
        a, new = act[0], st["inst"] + 1
        if a in ("install", "upgrade"):
            if kind == "opkg":
                opkg("preinst", a)
                if a == "upgrade":
                    opkg("prerm", a)
                unpack(new)
                opkg("postinst", "configure")
            else:
                unpack(new)
                arch("post_" + a)
            s = state()
            st["inst"] = new
            if a == "install" or kind == "opkg":
                if not s["enabled"]:
                    raise Violation("the service is not enabled after %s" % a)
            elif s["enabled"] != was["enabled"]:
                raise Violation("the upgrade %s the service" % ("enables" if s["enabled"] else "disables"))
            if (a == "upgrade" or kind == "opkg") and (not s["active"] or s["version"] != new):
                raise Violation("after %s %s" % (a, "the old version of the service keeps running" if s["active"] else "the service does not run"))
            self.evals += 1
        elif a == "remove":
            if kind == "opkg":
                opkg("prerm", a)
            else:
                arch("pre_remove")
            os.unlink("%s/%s/%s.service" % (w.root, d, name))
            s = state()
            if s["active"] or s["enabled"]:
                raise Violation("after the removal the service is still %s" % ("running" if s["active"] else "enabled"))
            st["inst"] = 0
            self.evals += 1
        elif a == "reboot":
            s = state()
            with open(w.root + "/units/" + name, "w") as h:
                h.write("1 %d %d %d\n" % (s["enabled"], s["enabled"], st["inst"] if s["enabled"] else 0))
        else:
            self.plain("/dev/null", [], {}, call="systemctl %s %s" % (a, name))
        st["unit"] = open(w.root + "/units/" + name).read()
        return st


JOBS = dict(board=Board, service=Service, dialogue=Dialogue, combos=Combos, preseed=Preseed, life=Life, crash=Crash)


def main():
    bdir, repo = sys.argv[1], sys.argv[2]
    prm = dict(a.split("=", 1) for a in sys.argv[3:])
    w = World(bdir, repo)
    job = JOBS[prm["mode"]](w, prm)
    t0 = time.time()
    max_s = float(prm.get("max_s", 600))
    res = dict(status="ok", states=0, transitions=0, executions=0, revisits=0, pruned=0, evals=0, evals_nontrivial=0, complete=True,
               max_depth=0, snapshot_bytes=0, obs="", outcomes=0, outcomes_truncated=False, message="", report="", samples=[],
               choice_labels={}, known=[], traces=[], path=[])

    def obs(st):
        return hashlib.md5(json.dumps({k: v for k, v in st.items() if k != "depth"}, sort_keys=True).encode()).hexdigest()[:16]

    def act(st, path, i, a):
        try:
            return job.do(st, a)
        except Violation as e:
            res.update(status="violation", message=str(e), path=path + [i],
                       report="\n".join(labels(path + [i])))
            return None
        finally:
            res["transitions"] += 1

    lab = {}

    def labels(path):
        return [lab.get(tuple(path[:n + 1]), "?") for n in range(len(path))]
    try:
        if "replay" in prm:
            f = prm["replay"][1:]
            path = [int(x) for x in open(f).read().split(",") if x != ""]
            st = job.roots()[path[0]]
            for n, i in enumerate(path[1:], 1):
                a = job.actions(st)[i]
                lab[tuple(path[:n + 1])] = json.dumps(a)
                if "verbose" in prm:
                    print("step %d: %s" % (n, json.dumps(a)))
                st = act(st, path[:n], i, a)
                if st is None:
                    break
            else:
                res["obs"] = obs(st)
            if "verbose" in prm and res["message"]:
                print(res["message"])
        else:
            seen, front = {}, []
            for i, st in enumerate(job.roots()):
                seen[job.fingerprint(st)] = 1
                front.append((st, [i]))
            outs = set()
            while front and res["status"] == "ok":
                nxt = []
                for st, path in front:
                    acts = job.actions(st)
                    if not acts:
                        res["executions"] += 1
                    for i, a in enumerate(acts):
                        if time.time() - t0 > max_s:
                            res["complete"] = False
                            break
                        lab[tuple(path + [i])] = json.dumps(a)
                        s2 = act(st, path, i, a)
                        if s2 is None:
                            break
                        o = obs(s2)
                        outs.add(o)
                        k = job.fingerprint(s2)
                        if k in seen:
                            res["revisits"] += 1
                            res["executions"] += 1
                            continue
                        seen[k] = 1
                        nxt.append((s2, path + [i]))
                        if len(res["traces"]) < 400 and not s2.get("trivial"):
                            res["traces"].append(dict(obs=o, choices=path + [i]))
                    if res["status"] != "ok" or not res["complete"]:
                        break
                if not res["complete"]:
                    res["executions"] += len(nxt)    # histories which were cut here
                    break
                front = nxt
                res["max_depth"] += 1
            # traces to run again: spread over all
            t = res["traces"]
            keep = int(prm.get("validate", 8))
            res["traces"] = [t[j * len(t) // keep] for j in range(keep)] if len(t) > keep else t
            res["samples"] = ["; ".join(labels(x["choices"])[1:]) for x in res["traces"][:5]]
            res["states"], res["outcomes"] = len(seen), len(outs)
            res["evals"] = res["evals_nontrivial"] = job.evals
            res["choice_labels"] = job.labels
    finally:
        w.close()
    res["wall_s"] = time.time() - t0
    with (open(prm["out"], "w") if "out" in prm else sys.stdout) as f:
        json.dump(res, f)
    return 1 if res["status"] == "violation" else 0


if __name__ == "__main__":
    if sys.argv[1] == "build":
        build(sys.argv[2], sys.argv[3])
    else:
        sys.exit(main())
