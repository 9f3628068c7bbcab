"""Take a scratch copy of /repo's current working tree, generate the scanner
sources there with the repository's own tool, and compile to LLVM IR."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
DEFS = ["-DHAS_STDINT_H", "-DHAS_INTTYPES_H", "-DUSE_GZIP_MBOX", "-DUSE_BZIP_MBOX", "-DUSE_XZ_MBOX", "-DUSE_OPENSSL"]
ALL = ["mairix", "db", "rfc822", "tok", "hash", "dirscan", "writer", "reader", "search", "stats", "dates", "datescan",
       "mbox", "md5", "fromcheck", "glob", "dumper", "expandstr", "dotlock", "nvp", "nvpscan", "imap", "imapinterface", "xzfile"]


class BuildError(Exception):
    pass


class Tree:
    """a scratch copy of /repo's working tree with generated sources"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vpmairix.")
        self.src = os.path.join(self.dir, "src")
        os.mkdir(self.src)
        for root, dirs, files in os.walk(REPO):
            rel = os.path.relpath(root, REPO)
            dirs[:] = [d for d in dirs if d not in (".git", "test", "_build", "old_docs")]
            os.makedirs(os.path.join(self.src, rel), exist_ok=True)
            for f in files:
                if f.endswith((".o", ".report")) or f in ("mairix", "dfasyn", "Makefile.bak"):
                    continue
                if rel == "." and f in ("Makefile", "datescan.c", "datescan.h", "fromcheck.c", "fromcheck.h",
                                        "nvpscan.c", "nvpscan.h", "version.h", "config.log"):
                    continue
                if rel == "dfasyn" and f in ("parse.c", "parse.h", "scan.c", "parse.output"):
                    continue
                shutil.copy(os.path.join(root, f), os.path.join(self.src, rel, f))
        env = dict(os.environ, LC_ALL="C", CC="gcc", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        for v in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "MAKEFLAGS"):
            env.pop(v, None)
        self.env = env
        r = subprocess.run("sh ./configure && make datescan.c datescan.h fromcheck.c fromcheck.h nvpscan.c nvpscan.h version.h",
                           shell=True, cwd=self.src, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True)
        if r.returncode:
            self.close()
            raise BuildError("generating sources failed:\n" + r.stdout[-800:] + r.stderr[-2000:])
        self._mairix = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def ll(self, names, inline=()):
        out = {}

        def one(n):
            o = os.path.join(self.dir, n + ".ll")
            cmd = ["clang-18", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w",
                   "-S", "-emit-llvm", "-I" + self.src] + DEFS + [os.path.join(self.src, n + ".c"), "-o", o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("clang failed on %s.c:\n%s" % (n, r.stderr[-2000:]))
            return n, open(o).read()
        with ThreadPoolExecutor(8) as ex:
            for n, t in ex.map(one, names):
                out[n] = t
        return out

    def mairix(self):
        """build the real program from the scratch copy (for end-to-end replay)"""
        if self._mairix is None:
            r = subprocess.run("make -j8 mairix", shell=True, cwd=self.src, env=self.env, stdin=subprocess.DEVNULL,
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("make failed:\n" + r.stdout[-800:] + r.stderr[-2000:])
            self._mairix = os.path.join(self.src, "mairix")
        return self._mairix

    def mairix_san(self):
        """the program built with the address sanitizer"""
        if getattr(self, "_san", None) is None:
            d = os.path.join(self.dir, "san")
            shutil.copytree(self.src, d, ignore=shutil.ignore_patterns("*.o", "mairix"))
            r = subprocess.run(["make", "-j8", "mairix", "CC=gcc -fsanitize=address -fno-omit-frame-pointer -g -O1"], cwd=d, env=self.env, stdin=subprocess.DEVNULL, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("make failed:\n" + r.stdout[-800:] + r.stderr[-2000:])
            self._san = os.path.join(d, "mairix")
        return self._san

    def cc(self, csrc, exe, extra=(), san=True, libs=("-lz", "-lbz2", "-llzma", "-lssl", "-lcrypto")):
        cmd = ["gcc", "-O1", "-g", "-w", "-I" + self.src, "-I" + os.path.dirname(csrc)] + DEFS
        sf = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if san else []
        cmd += sf
        objs = []

        def one(x):
            o = os.path.join(self.dir, os.path.basename(x) + (".san.o" if san else ".o"))
            if not os.path.exists(o):
                r = subprocess.run(cmd + ["-c", x, "-o", o], capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("harness build failed: %s\n%s" % (x, r.stderr[-3000:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, extra))
        cmd += [csrc] + objs + ["-o", exe] + list(libs)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("harness build failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        return exe


def di_fields(text):
    """struct/union member offsets from the debug info: {struct: {field: (byteoff, bytes, isptr)}}"""
    nodes = {}
    for m in re.finditer(r"^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$", text, re.M):
        nodes[int(m.group(1))] = (m.group(2), m.group(3))
    lists = {}
    for m in re.finditer(r"^!(\d+) = !\{(.*)\}$", text, re.M):
        lists[int(m.group(1))] = [int(x) for x in re.findall(r"!(\d+)", m.group(2))]

    def attr(body, k):
        m = re.search(r"\b%s: (?:\"([^\"]*)\"|!(\d+)|(\w+))" % k, body)
        if not m:
            return None
        return m.group(1) if m.group(1) is not None else (int(m.group(2)) if m.group(2) else m.group(3))

    def isptr(n):
        while n is not None and n in nodes:
            k, b = nodes[n]
            tag = attr(b, "tag")
            if tag == "DW_TAG_pointer_type":
                return True
            if k == "DIDerivedType" and tag in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
                n = attr(b, "baseType")
                continue
            return False
        return False

    def comp(n):
        while n is not None and n in nodes:
            k, b = nodes[n]
            if k == "DICompositeType":
                return n
            if k == "DIDerivedType" and attr(b, "tag") in ("DW_TAG_typedef", "DW_TAG_const_type"):
                n = attr(b, "baseType")
                continue
            return None
        return None
    out = {}

    def members(n, base, prefix, d):
        k, b = nodes[n]
        for e in lists.get(attr(b, "elements"), []):
            k2, b2 = nodes.get(e, (None, None))
            if k2 != "DIDerivedType" or attr(b2, "tag") != "DW_TAG_member":
                continue
            nm = attr(b2, "name")
            off = int(attr(b2, "offset") or 0)
            size = int(attr(b2, "size") or 0)
            bt = attr(b2, "baseType")
            bitf = "DIFlagBitField" in b2
            if bitf:
                d[prefix + nm] = (base + off // 8, 1, ("bit", off % 8))
            else:
                d[prefix + (nm or "")] = (base + off // 8, size // 8, isptr(bt))
                c = comp(bt)
                if c is not None and attr(nodes[c][1], "tag") in ("DW_TAG_structure_type", "DW_TAG_union_type"):
                    members(c, base + off // 8, prefix + (nm + "." if nm else ""), d)
    for n, (k, b) in nodes.items():
        if k == "DICompositeType" and attr(b, "tag") in ("DW_TAG_structure_type", "DW_TAG_union_type"):
            nm = attr(b, "name")
            if nm and attr(b, "elements") is not None:
                d = {}
                members(n, 0, "", d)
                d["__size"] = (int(attr(b, "size")) // 8, 0, False)
                out[nm] = d
    out["__enum"] = {m.group(1): int(m.group(2)) for m in re.finditer(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', text)}
    return out


def merge_fields(fields, text):
    for k, v in di_fields(text).items():
        if k == "__enum":
            fields.setdefault(k, {}).update(v)
        else:
            fields.setdefault(k, v)
