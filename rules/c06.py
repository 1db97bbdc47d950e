"""C06: the programs only ever read the user's files."""
from sa.exc import short, args
from sa.facts import Node, show

EXPLAIN = ("Effect query over every call, construction and function reference in the libraries and programs: nothing that can "
           "create, change, rename or remove a file (stream, std::filesystem, C and POSIX interfaces) or start another program "
           "is used, and every input stream is opened without a mode that can create or truncate.")
RULES = {
    "no-write-stream": "no std::ofstream / std::fstream / std::filebuf is ever made",
    "read-mode": "an input file stream is opened with the default mode or with in/binary/ate only",
    "no-fs-change": "no call or reference to a std::filesystem function that changes the file system",
    "no-c-file": "no call or reference to a C or POSIX function that can create, change or remove files, or start a program",
}
ASSUME = ["library functions not on the lists of rules/c06.py don't change files"]
FSMUT = {"remove", "remove_all", "rename", "copy", "copy_file", "copy_symlink", "create_directory", "create_directories",
         "create_symlink", "create_directory_symlink", "create_hard_link", "resize_file", "permissions", "last_write_time",
         "replace_filename_on_disk"}
CMUT = {"remove", "rename", "renameat", "renameat2", "unlink", "unlinkat", "rmdir", "mkdir", "mkdirat", "truncate", "truncate64",
        "ftruncate", "ftruncate64", "chmod", "fchmod", "fchmodat", "chown", "fchown", "lchown", "symlink", "symlinkat", "link",
        "linkat", "mkfifo", "mknod", "utime", "utimes", "utimensat", "futimens", "system", "popen", "execl", "execlp", "execle",
        "execv", "execvp", "execvpe", "execve", "fexecve", "fork", "vfork", "posix_spawn", "posix_spawnp", "clone", "tmpfile",
        "tmpnam", "tempnam", "mkstemp", "mkostemp", "mkdtemp", "mktemp", "creat", "creat64", "open", "open64", "openat",
        "openat64", "freopen", "freopen64", "fopen", "fopen64", "fdopen", "write", "pwrite", "pwrite64", "writev", "sendfile",
        "copy_file_range", "splice", "mmap", "mmap64", "ioctl", "fallocate", "posix_fallocate", "setxattr", "removexattr",
        "chroot", "mount", "umount", "shm_open", "fwrite", "fputs", "fputc", "fprintf", "vfprintf"}
OKMODE = {"in", "binary", "ate", "_S_in", "_S_bin", "_S_ate", "openmode"}


def mode_ok(n):
    """an expression made of in/binary/ate only; returns the offending part or None"""
    if isinstance(n.v, int):          # in 8, binary 4, ate 2 (libstdc++)
        return None if not n.v & ~14 else n
    for x in n.walk():
        if x.k == "DeclRefExpr" and isinstance(x.v, int) and x.t is not None and "Openmode" in x.t.s:
            if x.v & ~14: return x
        elif x.k == "DeclRefExpr":
            nm = x.n or x.ec or short(x.fq or x.var or "")
            nm = nm.rsplit("::", 1)[-1]
            if nm.startswith("operator"): continue
            if nm not in OKMODE: return x
        elif x.k == "MemberExpr" and x.m not in OKMODE: return x
    return None


def literal(n):
    for x in n.walk():
        if x.k == "StringLiteral" and isinstance(x.s, str): return x.s
    return None


def check(ctx):
    p = ctx.p
    opens = calls = 0
    for f in p.fns.values():
        for n in f.nodes():
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                t = n.t.strip().n if n.t is not None else ""
                b = t.rsplit("::", 1)[-1]
                if n.own: continue
                calls += 1
                if b in ("basic_ofstream", "basic_fstream", "basic_filebuf", "stdio_filebuf", "basic_osyncstream_file"):
                    ctx.bad("no-write-stream", n, f"makes a {t}, which can write to files", key=f"stream {f.q}")
                elif b == "basic_ifstream":
                    opens += 1
                    mode(ctx, n, args(n), f)
                continue
            if n.k in ("CallExpr", "CXXMemberCallExpr") and n.f and not n.own:
                calls += 1
                s = short(n.fq)
                if s == "open" and n.k == "CXXMemberCallExpr" and "ifstream" in n.fq:
                    opens += 1
                    mode(ctx, n, args(n), f)
                    continue
            ref = None
            if n.k == "DeclRefExpr" and n.d.get("fn") or n.k in ("CallExpr", "CXXMemberCallExpr"): ref = n.fq or n.f
            if not ref or n.own: continue
            ref = ref.split("(")[0]
            s = short(ref)
            if "filesystem" in ref:
                if s == "last_write_time" and n.k == "CallExpr" and len([a for a in args(n)]) < 2: continue
                if s in FSMUT and not ("path::" in ref): ctx.bad("no-fs-change", n, f"std::filesystem::{s} changes the file system", key=f"fs {f.q} {s}")
            elif "::" not in ref or ref in ("std::" + s, "::" + s):
                if s in ("remove", "rename") and ref == "std::" + s:
                    # std::remove is also an algorithm on ranges
                    if n.k == "CallExpr" and n.c[1].t is not None and n.c[1].t.strip().k != "ptr": continue
                if s in ("fopen", "fopen64") and n.k == "CallExpr":
                    m = literal(n.c[2]) if len(n.c) > 2 and n.c[2] is not None else None
                    if m is not None and m.startswith("r") and "+" not in m:
                        ctx.ok("read-mode", n); continue
                elif s in ("fopen", "fopen64"): continue    # the reference below a call already judged
                if s in ("fprintf", "fputs", "fputc", "fwrite", "vfprintf"): continue   # need a FILE* opened elsewhere
                if s in CMUT: ctx.bad("no-c-file", n, f"{s}() can change files or start programs", key=f"c {f.q} {s}")
    for r in ("no-write-stream", "no-fs-change", "no-c-file"): ctx.ok(r, "libs, apps", f"{calls} library calls searched")
    ctx.info["library_calls"] = calls
    ctx.info["files_opened_at"] = opens
    ctx.floor("read-mode", 1, "places that open files")


def mode(ctx, n, a, f):
    if len(a) < 2: ctx.ok("read-mode", n); return
    w = mode_ok(a[1])
    ctx.check(w is None, "read-mode", n, show(n)[:80], f"opens the file with mode '{show(a[1])[:40]}', which can create, change or truncate it",
              key=f"mode {f.q}")
