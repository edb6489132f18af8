"""Front end: protobuf headers from the current .proto files, the AST dumper,
and one JSON program per analysed translation unit."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YGV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang++-18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (front end failure, lost anchor)."""


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def ensure_tool():
    src = os.path.join(VERIF, "extract", "astdump.cpp")
    out = os.path.join(BUILD, "astdump-" + _hash_files([src]))
    with _Lock("tool"):
        if not os.path.exists(out):
            _run([CLANG, "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
                  "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o",
                  out + ".tmp", "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so"])
            os.rename(out + ".tmp", out)
    return out


def proto_files():
    d = os.path.join(REPO, "include/ygopen/proto")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".proto"))


def ensure_pb():
    """Generated protobuf headers of the current .proto files."""
    fs = proto_files()
    out = os.path.join(BUILD, "pb-" + _hash_files(fs))
    with _Lock("pb"):
        if not os.path.isdir(out):
            tmp = out + ".tmp"
            subprocess.run(["rm", "-rf", tmp])
            os.makedirs(tmp)
            d = os.path.join(REPO, "include/ygopen/proto")
            _run(["protoc", "--proto_path=" + d, "--cpp_out=lite:" + tmp,
                  "--descriptor_set_out=" + os.path.join(tmp, "all.desc")] + [os.path.basename(f) for f in fs])
            os.rename(tmp, out)
    return out


def repo_sources():
    res = []
    for top in ("include", "src"):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            for f in fn:
                res.append(os.path.join(dp, f))
    return sorted(res)


def cxx_flags(std="c++17", shadow=True, array=True):
    fl = ["-std=" + std]
    if shadow:
        fl += ["-I" + os.path.join(VERIF, "drivers/shadow")]
    if array:
        fl += ["-include", "array"]
    fl += ["-I" + os.path.join(REPO, "include"), "-I" + ensure_pb(), "-w"]
    return fl


def dump(source, flags=None):
    """Runs astdump on `source`; returns the parsed JSON."""
    tool = ensure_tool()
    default = flags is None
    flags = flags or cxx_flags()
    drv = [os.path.join(dp, f) for dp, dn, fn in os.walk(os.path.join(VERIF, "drivers")) for f in fn]
    key = hashlib.sha256(("|".join([source, os.path.basename(tool)] + flags) + _hash_files(repo_sources() + drv)).encode()).hexdigest()[:24]
    cdir = os.path.join(BUILD, "ast")
    os.makedirs(cdir, exist_ok=True)
    name = os.path.basename(source) + ("" if default else "." + hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8])
    out = os.path.join(cdir, name + "-" + key + ".json")
    with _Lock("ast-" + name):
        if not os.path.exists(out):
            for f in os.listdir(cdir):
                if f.startswith(name + "-"):
                    os.unlink(os.path.join(cdir, f))
            res = subprocess.run(["clang-18", "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
            _run([tool, out + ".tmp", ",".join([REPO + "/include/", REPO + "/src/", os.path.join(VERIF, "drivers") + "/"]),
                  source, "--", "-resource-dir", res] + flags)
            os.rename(out + ".tmp", out)
        f = open(out)
    with f:
        return json.load(f)
