#!/usr/bin/env python3
"""Copy /repo/src into mc/ariadne/src, replacing `std` by `vstd` and nothing else.

Files are rewritten only when their contents change, so cargo rebuilds only
what a change in /repo requires.
"""
import os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ARIADNE_REPO", "/repo")
OUT = os.path.join(HERE, "ariadne")

STD = re.compile(r"(?<![A-Za-z0-9_])std(?=\s*::|\s+as\s|\s*;)")
TLS = re.compile(r"(?<![A-Za-z0-9_:!])thread_local!")
# a `main` of a binary is reachable from the harness
MAIN = re.compile(r"^fn\s+main\s*\(", re.M)


def split_code(text):
    """Yield (is_code, fragment): string literals and comments are not code."""
    pat = re.compile(
        r'//[^\n]*|/\*.*?\*/|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\.[^\']*|[^\\\'])\'',
        re.S,
    )
    pos = 0
    for m in pat.finditer(text):
        yield True, text[pos:m.start()]
        yield False, m.group(0)
        pos = m.end()
    yield True, text[pos:]


def convert(text, is_bin):
    out = []
    for code, frag in split_code(text):
        if code:
            frag = STD.sub("vstd", frag)
            frag = TLS.sub("::vstd::thread_local!", frag)
            if is_bin:
                frag = re.sub(r"(?<![A-Za-z0-9_])ariadne_dns(?=\s*::)", "crate", frag)
                frag = MAIN.sub("pub fn main(", frag)
        out.append(frag)
    return "".join(out)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


CARGO = """[package]
name = "ariadne-dns"
version = "0.1.0"
edition = "2021"

[lib]
name = "ariadne_dns"
path = "src/lib.rs"
test = false
doctest = false

[dependencies]
vstd = { path = "../vstd" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
colored = "2"
log = { version = "0.4", features = ["serde"] }
rand = { path = "../shims/rand" }
simple_logger = { path = "../shims/simple_logger" }
"""


def main():
    src = os.path.join(REPO, "src")
    wanted = set()
    bins = []
    for d, _, files in os.walk(src):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            if not f.endswith(".rs"):
                # kept for include_str! and the like
                with open(p, errors="surrogateescape") as fh:
                    text = fh.read()
                dst = os.path.join(OUT, "src", rel)
                wanted.add(dst)
                write(dst, text)
                continue
            with open(p) as fh:
                text = fh.read()
            is_bin = rel.startswith("bin" + os.sep)
            text = convert(text, is_bin)
            if is_bin and rel.count(os.sep) == 1:
                name = "bin_" + os.path.splitext(f)[0]
                rel = name + ".rs"
                bins.append(name)
            if rel == "lib.rs":
                lib = text
                continue
            dst = os.path.join(OUT, "src", rel)
            wanted.add(dst)
            write(dst, text)
    head = "#![allow(warnings)]\n"
    tail = "".join("pub mod %s;\n" % b for b in sorted(bins))
    dst = os.path.join(OUT, "src", "lib.rs")
    wanted.add(dst)
    write(dst, head + lib + "\n" + tail)
    write(os.path.join(OUT, "Cargo.toml"), CARGO)
    # drop files which no longer exist in /repo
    for d, _, files in os.walk(os.path.join(OUT, "src")):
        for f in files:
            p = os.path.join(d, f)
            if p not in wanted:
                os.unlink(p)


main()
