"""the recording helper program (lib/c/rec.c): building it and reading its records"""
import os, subprocess, shutil

HERE = os.path.dirname(os.path.abspath(__file__))


def setup(ctx):
    d = ctx.root + "/rec"
    os.mkdir(d)
    subprocess.check_call(["gcc", "-O1", "-o", d + "/rec", HERE + "/c/rec.c"])
    shutil.copy(d + "/rec", d + "/reccc")
    os.chmod(d, 0o755)
    ctx.rec = d + "/rec"
    ctx.reccc = d + "/reccc"


def parse(data):
    """-> list of (argv, env dict, cwd)"""
    out = []
    f = data.split(b"\0")
    i = 0
    while i < len(f) - 1:
        assert f[i][:1] == b"R", (i, f[:20])
        n = int(f[i][1:])
        argv = f[i + 1:i + 1 + n]
        i += 1 + n
        env = None
        if f[i][:1] == b"E" and f[i][1:].isdigit():
            n = int(f[i][1:])
            env = dict(x.split(b"=", 1) for x in f[i + 1:i + 1 + n] if b"=" in x)
            i += 1 + n
        out.append((argv, env, f[i]))
        i += 1
    return out


def read(path):
    if not os.path.exists(path):
        return []
    return parse(open(path, "rb").read())


def setup_tool(ctx):
    d = ctx.root + "/tool"
    os.mkdir(d)
    subprocess.check_call(["gcc", "-O1", "-o", d + "/tool", HERE + "/c/tool.c"])
    os.chmod(d, 0o755)
    ctx.tool = d + "/tool"


M64 = (1 << 64) - 1


def tool_hash(parts):
    h = 14695981039346656037
    for p in parts:
        for b in p:
            h = ((h ^ b) * 1099511628211) & M64
        h = ((h ^ 256) * 1099511628211) & M64
    return h


def tool_out(name, k, parts):
    return b"%s:%d:%016x\n" % (name.encode(), k, tool_hash([name.encode()] + parts))
