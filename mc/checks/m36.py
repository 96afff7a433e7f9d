"""Field descriptions are those of the class, whatever was cached before.

Processes are real (forked) processes that share a scratch cache folder; they run real code with model
classes generated from a version, so that an upgrade of the library is a change of version between two
processes.  Crash points, failing file operations and the interleavings of two processes are enumerated at
the operating system calls on the folder; interrupts and thread switches at the executed lines.
"""
import errno
import gc
import importlib.util
import io
import itertools
import json
import os
import re
import shutil
import sys
import tempfile
import threading
import traceback
import types
from pathlib import Path

import builtins

# ---------------------------------------------------------------- versions of a little library
LEVELS = ("Leaf", "Inner", "Outer")
KINDS = ("added", "removed", "renamed", "default", "required", "units", "description", "examples", "enum", "validator",
         "type", "deprecated", "literal", "factory")
NESTED = ("optional", "other class", "no nested", "list")


def source(version):
    """version: set of (level, kind)"""
    out = ["from typing import Annotated, Literal, Optional", "from enum import Enum", "from pydantic import Field, field_validator",
           "from mt_metadata.base import MetadataBase"]
    below = None
    for level in LEVELS:
        on = lambda k: (level, k) in version
        members = ["a", "b"] + (["c"] if on("enum") else [])
        out.append(f"class {level}Kind(str, Enum):")
        out += [f"    {m} = '{m}'" for m in members]
        out.append(f"def first_{level}(): return []")
        out.append(f"def second_{level}(): return [1]")
        out.append(f"class {level}(MetadataBase):")

        def field(name, typ, default, description="a value", required=True, units="m", examples=("x",), extra=""):
            default = default if default.startswith("default") else f"default={default}"
            out.append(
                f"    {name}: Annotated[{typ}, Field({default}, description={description!r}, alias=None, {extra}"
                f"json_schema_extra={{'units': {units!r}, 'required': {required}, 'examples': {list(examples)!r}}})]"
            )

        field(
            "worth" if on("renamed") else "value",
            "str" if on("type") else "float",
            ("'1'" if on("default") else "'0'") if on("type") else ("1.5" if on("default") else "0.0"),
            description="another value" if on("description") else "a value",
            required=not on("required"),
            units="km" if on("units") else "m",
            examples=("y", "z") if on("examples") else ("x",),
        )
        field("kind", f"{level}Kind", f"{level}Kind.a")
        field("word", "Literal['p', 'q', 'r']" if on("literal") else "Literal['p', 'q']", "'p'")
        field("numbers", "list[float]", f"default_factory={'second' if on('factory') else 'first'}_{level}")
        if not on("removed"):
            field("second", "str", "'s'", extra="deprecated='old', " if on("deprecated") else "")
        if on("added"):
            field("extra", "int", "3")
        if below:
            typ = below
            if on("optional"):
                typ = f"Optional[{below}]"
            elif on("other class"):
                out.insert(4, f"class Other{level}(MetadataBase):\n    other: Annotated[str, Field(default='o', description='o', "
                           "json_schema_extra={'units': None, 'required': True, 'examples': []})]")
                typ = f"Other{level}"
            elif on("list"):
                typ = f"list[{below}]"
            if not on("no nested"):
                d = "list" if on("list") else typ if typ != f"Optional[{below}]" else below
                field("nested", typ, f"default_factory={d}")
        if on("validator"):
            out += ["    @field_validator('kind', mode='before')", "    @classmethod", "    def check(cls, value): return value"]
        below = level
    return "\n".join(out) + "\n"


def load(version):
    mod = types.ModuleType("little_library")
    sys.modules["little_library"] = mod
    exec(compile(source(version), "little_library.py", "exec"), mod.__dict__)
    return mod


# ---------------------------------------------------------------- oracle
ADDRESS = re.compile(r" at 0x[0-9a-f]+")


def clean(x):
    if isinstance(x, str):
        return ADDRESS.sub("", x)
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return x


def nested_class(annotation, base):
    """the class whose fields take the place of the field, None for a field without"""
    import typing

    if isinstance(annotation, type) and not typing.get_origin(annotation):
        return annotation if issubclass(annotation, base) and annotation.__name__ != "MTime" else None
    origin = typing.get_origin(annotation)
    if origin is typing.Annotated:
        return nested_class(typing.get_args(annotation)[0], base)
    if origin in (typing.Union, types.UnionType):
        args = [a for a in typing.get_args(annotation) if a is not type(None)]
        hits = [a for a in args if isinstance(a, type) and issubclass(a, base)]
        if hits:
            return hits[0] if hits[0].__name__ != "MTime" else None
        return nested_class(args[0], base) if args else None
    return None


def describe(cls, prefix=""):
    """dotted name -> what the definition of the field says"""
    import enum
    import typing

    from pydantic import BaseModel

    out = {}
    decorated = set()
    decs = cls.__pydantic_decorators__.field_validators
    for name, dec in decs.items():
        decorated.add(name)
    for name, info in cls.model_fields.items():
        if info.deprecated is not None:
            continue
        inner = nested_class(info.annotation, BaseModel)
        if inner is not None:
            out.update(describe(inner, prefix + name + "."))
            continue
        extra = info.json_schema_extra or {}
        values = None
        if isinstance(info.annotation, type) and issubclass(info.annotation, enum.Enum):
            values = [m.value for m in info.annotation]
        elif typing.get_origin(info.annotation) is typing.Literal:
            values = list(typing.get_args(info.annotation))
        out[prefix + name] = {
            "type": repr(info.annotation),
            "default": None if info.default is None else repr(info.default),
            "description": info.description,
            "units": extra.get("units"),
            "required": extra.get("required"),
            "enum": values,
            "factory": None if info.default_factory is None else repr(info.default_factory),
        }
    return clean(out)


def told(fields):
    """the same of what the library says"""
    return clean({
        k: {"type": v.get("type"), "default": v.get("default"), "description": v.get("description"), "units": v.get("units"),
            "required": v.get("required"), "enum": v.get("enum"), "factory": v.get("default_factory")}
        for k, v in fields.items()
    })


def query(ph, cls):
    return clean(ph.flatten_field_tree_map(ph.get_all_fields_serializable(cls)))


def compare(cls, fields):
    """first difference between what is told and the class"""
    want, got = describe(cls), told(fields)
    if sorted(want) != sorted(got):
        return f"{cls.__name__}: fields {sorted(got)} expected {sorted(want)}"
    for k in want:
        for part in want[k]:
            if want[k][part] != got[k][part]:
                return f"{cls.__name__}.{k} {part}: {got[k][part]!r} expected {want[k][part]!r}"
    return None


# ---------------------------------------------------------------- processes
def spawn(func, *args):
    """run func in a process of its own -> (exit code, result)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            gc.disable()
            sys.stdout = open(os.devnull, "w")
            try:
                out = {"ok": func(*args)}
            except BaseException as error:
                out = {"error": f"{type(error).__name__}: {error}", "trace": traceback.format_exc()[-1500:]}
            data = json.dumps(out, default=str).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while chunk := os.read(r, 65536):
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), json.loads(data) if data else None


def start(folder):
    """what a fresh process has"""
    from mt_metadata.base import pydantic_helpers as ph

    os.environ["MT_METADATA_CACHE_DIR"] = folder
    ph.clear_field_caches()
    return ph


def session(folder, version, names, hook=None):
    """a process of the library in this version that asks for the classes -> differences found, everything told"""
    ph = start(folder)
    mod = load(version)
    if hook:
        hook.install(folder)
    bad, all_told = [], {}
    for name in names:
        cls = getattr(mod, name)
        fields = query(ph, cls)
        all_told[name] = fields
        d = compare(cls, fields)
        if d:
            bad.append(d)
        obj = cls()
        if sorted(obj.get_attribute_list()) != sorted(describe(cls)):
            bad.append(f"{name}: attribute list {obj.get_attribute_list()}")
        all_told[name + " dict"] = clean(json.loads(json.dumps(obj.to_dict(single=True, required=False), default=str)))
    if hook:
        hook.remove()
    return {"bad": bad, "told": all_told, "events": hook.log if hook else []}


class Hook:
    """event before every call of the operating system on the folder"""

    CHUNK = 1024

    def __init__(self, act=None):
        self.act = act
        self.log = []
        self.fds = set()
        self.on = False

    def event(self, name):
        if not self.on:
            return
        self.log.append(name)
        if self.act:
            self.act(len(self.log) - 1, name)

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            return os.fspath(path).startswith(self.folder)
        except TypeError:
            return False

    def install(self, folder):
        self.folder = folder
        self.saved = (io.open, builtins.open, os.open)
        real_open, real_os_open = io.open, os.open
        self.on = True

        def opened(file, mode="r", *args, **kwargs):
            if not self.inside(file):
                return real_open(file, mode, *args, **kwargs)
            self.event(f"open {mode}")
            return Handle(real_open(file, mode, *args, **kwargs), self)

        def os_opened(path, flags, *args, **kwargs):
            if not self.inside(path):
                return real_os_open(path, flags, *args, **kwargs)
            self.event("os.open")
            fd = real_os_open(path, flags, *args, **kwargs)
            self.fds.add(fd)
            return fd

        io.open = builtins.open = opened
        os.open = os_opened
        self.plain = {}
        for name in ("replace", "rename", "unlink", "remove", "link", "mkdir", "rmdir", "stat", "listdir", "scandir", "write", "read", "fsync"):
            real = self.plain[name] = getattr(os, name)

            def call(*args, _name=name, _real=real, **kwargs):
                if any(self.inside(a) for a in args[:2]):
                    self.event(_name)
                return _real(*args, **kwargs)

            setattr(os, name, call)

    def remove(self):
        self.on = False
        io.open, builtins.open, os.open = self.saved
        for name, real in self.plain.items():
            setattr(os, name, real)


class Handle:
    def __init__(self, f, hook):
        self.__dict__.update(f=f, hook=hook, held=0)

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __iter__(self):
        self.hook.event("read")
        return iter(self.f)

    def read(self, *a):
        self.hook.event("read")
        return self.f.read(*a)

    def readline(self, *a):
        self.hook.event("read")
        return self.f.readline(*a)

    def readlines(self, *a):
        self.hook.event("read")
        return self.f.readlines(*a)

    def write(self, data):
        n = 0
        while n < len(data):
            piece = data[n : n + self.hook.CHUNK - self.held]
            self.f.write(piece)
            n += len(piece)
            self.__dict__["held"] = self.held + len(piece)
            if self.held >= self.hook.CHUNK:
                self.__dict__["held"] = 0
                self.f.flush()
                self.hook.event("write")
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        if not self.f.closed:
            self.hook.event("close")
            self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="m36-")
        return os.path.join(self.path, "cache")

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


FRESH = {}


def fresh(version, names):
    """what a process with an empty cache says"""
    key = (version, names)
    if key not in FRESH:
        with Scratch() as folder:
            FRESH[key] = spawn(session, folder, set(version), names)[1]
    return FRESH[key]


def judge(part, sig, replay, result, version, names, code=0):
    if result is None or code != 0:
        part.violation(f"{sig}: the process dies", f"exit {code} {result}", replay)
    elif "error" in result:
        part.violation(f"{sig}: {result['error'].split(':')[0]}", f"{result['error']} {result['trace']}", replay)
    elif result["ok"]["bad"]:
        part.violation(f"{sig}: fields are not those of the class", result["ok"]["bad"][0], replay)
    else:
        want = fresh(version, names)
        if result["ok"]["told"] != want["ok"]["told"]:
            a, b = result["ok"]["told"], want["ok"]["told"]
            d = [(n, k, a[n].get(k), b[n].get(k)) for n in b for k in b[n] if a[n].get(k) != b[n].get(k)]
            part.violation(f"{sig}: another answer than with an empty cache", f"{d[:2]}", replay)


ALL = ("Outer", "Inner", "Leaf")
ORDERS = {"outer": ("Outer",), "down": ALL, "up": ALL[::-1], "leaf": ("Leaf",)}


def job_upgrade(part, items):
    """every process of the history runs its version of the library on the same folder"""
    for versions, orders in items:
        replay = {"versions": [sorted(v) for v in versions], "orders": orders}
        part.state(("upgrade", tuple(map(str, replay["versions"])), orders))
        part.traces += 1
        with Scratch() as folder:
            for version, order in zip(versions, orders):
                part.transitions += 1
                names = ORDERS[order]
                code, result = spawn(session, folder, set(version), names)
                changed = sorted(versions[-1] - versions[0]) or sorted(versions[0] - versions[-1])
                judge(part, f"after another version of the library ({', '.join(' '.join(c) for c in changed[:1])})", replay,
                      result, version, names, code)


def faulty(folder, version, names, kind, at):
    def act(n, name):
        if n == at:
            if kind == "crash":
                os._exit(9)
            if name not in ("close",):
                raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)))

    return session(folder, version, names, Hook(act))


def job_faults(part, items):
    """crash or failure at every operation on the folder, then further processes"""
    for order, kind, warm in items:
        names = ORDERS[order]
        version = frozenset()
        older = frozenset({("Leaf", "added")})
        at = 0
        while True:
            replay = {"order": order, "fault": kind, "warm": warm, "operation": at}
            with Scratch() as folder:
                if warm:
                    spawn(session, folder, set(version), names)
                os.makedirs(os.path.dirname(folder), exist_ok=True)
                code, result = spawn(faulty, folder, set(version), names, kind, at)
                done = code == 0 and result and "ok" in result and len(result["ok"]["events"]) <= at
                part.state(("fault", order, kind, warm, at))
                part.transitions += 1
                part.traces += 1
                if kind != "crash":
                    judge(part, "a file operation on the cache fails", replay, result, version, names, code)
                elif not done and code != 9:
                    part.violation("crash: the process ends otherwise", f"{code} {result}", replay)
                # every later process works
                for v, o in ((version, "down"), (older, "up"), (version, "outer")):
                    part.transitions += 1
                    c, r = spawn(session, folder, set(v), ORDERS[o])
                    judge(part, "after a crash" if kind == "crash" else "after a failed file operation", replay, r, v, ORDERS[o], c)
            if done:
                part.count("operations", at)
                break
            at += 1
            if at > 400:
                part.violation("fault enumeration does not end", f"{replay}", replay)
                break


def torn(folder, cuts, share):
    """in one process: every damaged form of the files"""
    ph = start(folder)
    mod = load(set())
    names = ALL
    for n in names:
        query(ph, getattr(mod, n))
    good = {}
    for root, _, files in os.walk(folder):
        for f in files:
            good[os.path.join(root, f)] = Path(root, f).read_bytes()
    bad, n = [], 0
    want = {name: query(ph, getattr(mod, name)) for name in names}
    for path, data in good.items():
        step = max(1, len(data) // cuts)
        forms = []
        for k in range(0, len(data), step):
            forms.append(("prefix", k, data[:k]))
            forms.append(("zeros after", k, data[:k] + b"\0" * (len(data) - k)))
            if k:
                forms.append(("zeros before", k, b"\0" * k + data[k:]))
            forms.append(("bad byte", k, data[:k] + b"\xff" + data[k + 1 :]))
        forms.append(("twice", 0, data + data))
        for kind, k, damaged in forms[share::8]:
            n += 1
            Path(path).write_bytes(damaged)
            ph.clear_field_caches()
            for name in names:
                try:
                    got = query(ph, getattr(mod, name))
                except Exception as error:
                    bad.append(f"{kind} {k}: {type(error).__name__}: {error}")
                    continue
                if got != want[name]:
                    bad.append(f"{kind} {k}: {name} {str(got)[:200]}")
            Path(path).write_bytes(data)
    return {"bad": bad[:5], "n": n, "files": len(good)}


def job_torn(part, item):
    cuts, share = item
    with Scratch() as folder:
        code, r = spawn(torn, folder, cuts, share)
        replay = {"torn": cuts, "share": share}
        part.traces += 1
        if code or "error" in r:
            part.violation("damaged cache file: the process dies", f"{code} {r}", replay)
            return
        part.transitions += r["ok"]["n"] * 3
        for k in range(r["ok"]["n"]):
            part.state(("torn", share, k))
        part.count("cache files", r["ok"]["files"])
        for b in r["ok"]["bad"]:
            part.violation("a damaged cache file is believed", b, replay)


def places(base):
    """cache folders that cannot be used"""
    f = os.path.join(base, "file")
    Path(f).write_text("x")
    yield "a file is there", f
    yield "below a file", os.path.join(f, "a", "b")
    yield "deep", os.path.join(base, "a", "b", "c", "d")
    yield "a name too long", os.path.join(base, "n" * 300)
    loop = os.path.join(base, "loop")
    os.symlink(loop, loop)
    yield "a loop of links", loop
    full = os.path.join("/dev/full")
    yield "not a folder", os.path.join(full, "x")
    yield "spaces and signs", os.path.join(base, "ä ö %s {x}")
    yield "relative", os.path.relpath(os.path.join(base, "rel"))


def home_session(home, version, names):
    os.environ.pop("MT_METADATA_CACHE_DIR", None)
    from mt_metadata.base import pydantic_helpers as ph

    os.environ["HOME"] = home
    os.environ["XDG_CACHE_HOME"] = os.path.join(home, "xdg")
    ph.clear_field_caches()
    mod = load(version)
    bad, all_told = [], {}
    for name in names:
        cls = getattr(mod, name)
        fields = query(ph, cls)
        all_told[name] = fields
        bad += [d for d in [compare(cls, fields)] if d]
        all_told[name + " dict"] = clean(json.loads(json.dumps(cls().to_dict(single=True, required=False), default=str)))
    return {"bad": bad, "told": all_told, "events": []}


def job_places(part, _):
    base = tempfile.mkdtemp(prefix="m36-")
    try:
        for what, folder in places(base):
            for func in (session, home_session):
                for n in range(2):
                    part.state(("place", what, func.__name__, n))
                    part.transitions += 1
                    part.traces += 1
                    code, r = spawn(func, folder, set(), ALL)
                    judge(part, f"cache folder: {what}", {"place": what, "how": func.__name__}, r, frozenset(), ALL, code)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- two processes at once
POINTS = ("open", "write", "close", "read", "replace", "rename", "unlink", "os.open", "link", "mkdir")


def stepped(r, w, folder, version, names):
    def act(n, name):
        if name.startswith(POINTS):
            os.write(w, b"p")
            if os.read(r, 1) != b"g":
                os._exit(5)

    hook = Hook(act)
    hook.CHUNK = 2500
    return session(folder, version, names, hook)


def interleave(folder, programs, choose):
    """run the programs, choose(n alternatives) says which goes on at every point -> results"""
    procs = []
    for version, names in programs:
        go_r, go_w = os.pipe()
        at_r, at_w = os.pipe()
        out_r, out_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                for p in procs:
                    os.close(p["go"]), os.close(p["at"]), os.close(p["out"])
                os.close(go_w), os.close(at_r), os.close(out_r)
                gc.disable()
                sys.stdout = open(os.devnull, "w")
                os.write(at_w, b"s")
                if os.read(go_r, 1) != b"g":
                    os._exit(5)
                try:
                    out = {"ok": stepped(go_r, at_w, folder, set(version), names)}
                except BaseException as error:
                    out = {"error": f"{type(error).__name__}: {error}", "trace": traceback.format_exc()[-1500:]}
                Path(folder + f".{os.getpid()}.out").write_text(json.dumps(out, default=str))
                code = 0
            finally:
                os._exit(code)
        os.close(go_r), os.close(at_w), os.close(out_w)
        procs.append({"pid": pid, "go": go_w, "at": at_r, "out": out_r, "live": True})
    steps = []
    for p in procs:  # all at their start
        os.read(p["at"], 1)
    last = None
    while live := [i for i, p in enumerate(procs) if p["live"]]:
        if last in live:  # going on with the same process is choice 0
            live = [last] + [i for i in live if i != last]
        i = live[choose(len(live), last in live)] if len(live) > 1 else live[0]
        steps.append(i)
        last = i
        os.write(procs[i]["go"], b"g")
        if os.read(procs[i]["at"], 1) == b"":
            procs[i]["live"] = False
    results = []
    for p in procs:
        _, status = os.waitpid(p["pid"], 0)
        f = Path(folder + f".{p['pid']}.out")
        results.append((os.waitstatus_to_exitcode(status), json.loads(f.read_text()) if f.exists() else None))
        for k in ("go", "at", "out"):
            os.close(p[k])
    return results, steps


def job_processes(part, items):
    """all schedules of two processes with at most `bound` preemptions"""
    for programs, warm, bound, prefix0 in items:
        stack = [list(prefix0)]
        while stack:
            prefix = stack.pop()
            taken, frontier = [], []

            def choose(n, preempts):
                k = len(taken)
                used = sum(1 for c, pre in taken if c and pre)
                if k < len(prefix):
                    c = prefix[k]
                else:
                    c = 0
                    for other in range(1, n):
                        if not preempts or used < bound:
                            frontier.append([c for c, _ in taken] + [other])
                taken.append((c, preempts))
                return c

            with Scratch() as folder:
                os.makedirs(folder)
                if warm is not None:
                    spawn(session, folder, set(warm), ALL)
                results, steps = interleave(folder, programs, choose)
                part.transitions += len(steps)
                part.traces += 1
                part.state(("processes", str(programs), str(warm), tuple(steps)))
                replay = {"programs": [[sorted(v), n] for v, n in programs], "warm": sorted(warm) if warm is not None else None,
                          "schedule": steps}
                for (version, names), (code, r) in zip(programs, results):
                    judge(part, "two processes at once", replay, r, version, names, code)
                for version, names in programs:
                    c, r = spawn(session, folder, set(version), ALL)
                    judge(part, "after two processes at once", replay, r, version, ALL, c)
            stack += frontier


# ---------------------------------------------------------------- threads and interrupts
class Scheduler:
    """one thread runs at a time; a switch may happen at every executed line of the module and at its locks"""

    def __init__(self, path, plan):
        self.path, self.plan = path, plan  # plan: sorted steps at which another thread goes on
        self.step = 0
        self.gate = threading.Condition(REAL_LOCK())
        self.turn = None
        self.live = []
        self.blocked = {}
        self.dead = False

    def current(self):
        return threading.get_ident()

    def next_of(self, me):
        order = self.live[self.live.index(me) + 1 :] + self.live[: self.live.index(me)]
        return [t for t in order if t not in self.blocked]

    def wait_turn(self, me):
        while self.turn != me and not self.dead:
            self.gate.wait(20)

    def point(self):
        me = self.current()
        with self.gate:
            if me not in self.live or self.dead:
                return
            n = self.step
            self.step += 1
            if n in self.plan:
                others = self.next_of(me)
                if others:
                    self.turn = others[0]
                    self.gate.notify_all()
                    self.wait_turn(me)

    def block(self, lock):
        me = self.current()
        with self.gate:
            if me not in self.live:
                return False
            self.blocked[me] = lock
            others = self.next_of(me)
            if not others:
                self.dead = True
                self.gate.notify_all()
                raise RuntimeError("all threads wait for each other")
            self.turn = others[0]
            self.gate.notify_all()
            self.wait_turn(me)
            if self.dead:
                raise RuntimeError("all threads wait for each other")
            return True

    def release(self, lock):
        with self.gate:
            for t in [t for t, k in self.blocked.items() if k is lock]:
                del self.blocked[t]

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != self.path:
            return None

        def local(f, e, a):
            if e == "line":
                self.point()
            return local

        return local

    def run(self, funcs):
        out = [None] * len(funcs)

        def body(i):
            me = self.current()
            with self.gate:
                self.live.append(me)
                self.gate.notify_all()
                while self.order is None:
                    self.gate.wait(20)
                self.wait_turn(me)
            sys.settrace(self.trace)
            try:
                out[i] = ("ok", funcs[i]())
            except BaseException as error:
                out[i] = ("error", f"{type(error).__name__}: {error}")
            finally:
                sys.settrace(None)
                with self.gate:
                    others = self.next_of(me)
                    self.live.remove(me)
                    self.turn = others[0] if others else None
                    self.gate.notify_all()

        self.order = None
        threads = []
        for i in range(len(funcs)):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            threads.append(t)
            with self.gate:
                t.start()
                while len(self.live) <= i:
                    self.gate.wait(20)
        with self.gate:
            self.live[:] = [t.ident for t in threads]
            self.order = True
            self.turn = self.live[0]
            self.gate.notify_all()
        for t in threads:
            t.join(60)
            if t.is_alive():
                self.dead = True
                return None
        return out


REAL_LOCK = threading.Lock
SCHED = [None]


class Lock:
    """a lock that tells the scheduler instead of waiting"""

    again = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = SCHED[0]
        if s:
            s.point()
        while self.owner is not None and not (self.again and self.owner == me):
            if not blocking or s is None or not s.block(self):
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("the lock is never released")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if SCHED[0]:
                SCHED[0].release(self)
        if SCHED[0]:
            SCHED[0].point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class AgainLock(Lock):
    again = True


def module_copy():
    """the module of the library with locks of the scheduler"""
    import mt_metadata.base.pydantic_helpers as ph

    spec = importlib.util.spec_from_file_location("helpers_copy", ph.__file__)
    mod = importlib.util.module_from_spec(spec)
    saved = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = Lock, AgainLock
    try:
        sys.modules["helpers_copy"] = mod
        spec.loader.exec_module(mod)
    finally:
        threading.Lock, threading.RLock = saved
    return mod


def small():
    """two classes, few fields: all switches can be tried"""
    from typing import Annotated, Literal

    from pydantic import BaseModel, Field

    class Below(BaseModel):
        word: Annotated[Literal["p", "q"], Field(default="p", description="w", json_schema_extra={"units": "m", "required": True})]

    class Above(BaseModel):
        below: Annotated[Below, Field(default_factory=Below)]
        value: Annotated[float, Field(default=0.0, description="v", json_schema_extra={"required": False})]

    return {"Above": Above, "Below": Below}


def operation(ph, classes, op):
    if op == "clear":
        ph.clear_field_caches()
        return None
    return query(ph, classes[op])


def run_threads(programs, plan, folder):
    os.environ["MT_METADATA_CACHE_DIR"] = folder
    ph = module_copy()
    classes = small()
    sched = Scheduler(ph.__file__, set(plan))
    SCHED[0] = sched

    def func(ops):
        def f():
            return [operation(ph, classes, op) for op in ops]

        return f

    out = sched.run([func(ops) for ops in programs])
    SCHED[0] = None
    after = {name: query(ph, c) for name, c in classes.items()} if out else {}
    return out, after, sched.step, classes


def job_threads(part, items):
    for programs, plans in items:
        with Scratch() as folder:
            for plan in plans:
                if os.path.isdir(folder):
                    shutil.rmtree(folder)
                out, after, steps, classes = run_threads(programs, plan, folder)
                part.transitions += steps
                part.traces += 1
                part.state(("threads", str(programs), plan))
                replay = {"threads": programs, "switches at": plan}
                sig = "two threads at once"
                if out is None:
                    part.violation(f"{sig}: never done", f"{programs} {plan}", replay)
                    continue
                for ops, (state, r) in zip(programs, out):
                    if state != "ok":
                        part.violation(f"{sig}: {r.split(':')[0]}", r, replay)
                        continue
                    for op, fields in zip(ops, r):
                        if fields is not None and (d := compare(classes[op], fields)):
                            part.violation(f"{sig}: fields are not those of the class", d, replay)
                for name, fields in after.items():
                    if d := compare(classes[name], fields):
                        part.violation("after two threads: fields are not those of the class", d, replay)


def interrupted(folder, at, names):
    """an interrupt at the line, then further queries; the next processes get what is on the disk"""
    os.environ["MT_METADATA_CACHE_DIR"] = folder
    from mt_metadata.base import pydantic_helpers as ph

    ph.clear_field_caches()
    mod = load(set())
    count = [0]

    def trace(frame, event, arg):
        if frame.f_code.co_filename != ph.__file__:
            return None

        def local(f, e, a):
            if e == "line":
                count[0] += 1
                if count[0] == at:
                    raise KeyboardInterrupt
            return local

        return local

    try:
        sys.settrace(trace)
        for n in names:
            query(ph, getattr(mod, n))
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    bad = []

    def again():
        for n in ALL:
            cls = getattr(mod, n)
            if d := compare(cls, query(ph, cls)):
                bad.append(d)

    again()
    return {"bad": bad, "lines": count[0], "told": {}}


def job_interrupt(part, items):
    for names, first, step in items:
        at = first
        while True:
            replay = {"interrupt at line": at, "classes": names}
            with Scratch() as folder:
                code, r = spawn(interrupted, folder, at, names)
                part.state(("interrupt", names, at))
                part.transitions += 1
                part.traces += 1
                if code or r is None or "error" in r:
                    part.violation("interrupt: the process dies", f"{code} {r}", replay)
                    break
                if r["ok"]["bad"]:
                    part.violation("after an interrupt: fields are not those of the class", r["ok"]["bad"][0], replay)
                if at % 7 == 0:
                    c, r2 = spawn(session, folder, set(), ALL)
                    judge(part, "the process after an interrupt", replay, r2, frozenset(), ALL, c)
            if r["ok"]["lines"] < at:
                break
            at += step


# ---------------------------------------------------------------- classes of the package, and extended classes
def package_classes():
    import pkgutil

    import mt_metadata
    from mt_metadata.base import MetadataBase

    for m in pkgutil.walk_packages(mt_metadata.__path__, "mt_metadata."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass

    def below(c):
        for s in c.__subclasses__():
            yield s
            yield from below(s)

    found = {c for c in below(MetadataBase) if c.__module__.startswith("mt_metadata.")}
    return sorted(found, key=lambda c: (c.__module__, c.__qualname__))


def package(folder, rotate, backward):
    ph = start(folder)
    classes = package_classes()
    classes = classes[rotate:] + classes[:rotate]
    bad = []
    keep = {}
    for turn in ("first", "again", "from disk"):
        if turn == "from disk":
            ph.clear_field_caches()
            if backward:
                classes = classes[::-1]
        for cls in classes:
            fields = query(ph, cls)
            if d := compare(cls, fields):
                bad.append(f"{turn}: {cls.__module__} {d}")
            full = clean(ph.get_all_fields_serializable(cls))
            key = f"{cls.__module__}.{cls.__qualname__}"
            if key in keep and keep[key] != full:
                bad.append(f"{turn}: {key} changes")
            keep[key] = full
    return {"bad": bad[:5], "classes": len(classes)}


def job_package(part, items):
    for rotate, backward in items:
        with Scratch() as folder:
            for k in range(2):
                code, r = spawn(package, folder, rotate, backward)
                replay = {"first class": rotate, "backward": backward}
                part.traces += 1
                if code or "error" in (r or {"error": 1}):
                    part.violation("classes of the package: the process dies", f"{code} {r}", replay)
                    continue
                part.transitions += 3 * r["ok"]["classes"]
                for n in range(r["ok"]["classes"]):
                    part.state(("package", rotate, backward, n, k))
                for b in r["ok"]["bad"]:
                    part.violation("classes of the package", b, replay)


def extend(folder, ops):
    """classes with a field more have the name of the class they extend"""
    from pydantic.fields import FieldInfo

    ph = start(folder)
    mod = load(set())
    made = {"Leaf": mod.Leaf, "Outer": mod.Outer}
    infos = {
        "float": FieldInfo(annotation=float, default=2.0, description="new", json_schema_extra={"units": "km", "required": True}),
        "str": FieldInfo(annotation=str, default="n", description="new", json_schema_extra={"units": None, "required": False}),
    }
    bad = []
    for op in ops:
        if op == "clear":
            ph.clear_field_caches()
            continue
        base, _, kind = op.partition("+")
        cls = made[base]
        if kind:
            cls = made[base]().add_new_field("new_field", infos[kind])
        if d := compare(cls, query(ph, cls)):
            bad.append(f"{op}: {d}")
        obj = cls()
        want = sorted(describe(cls))
        if sorted(obj.get_attribute_list()) != want:
            bad.append(f"{op}: {obj.get_attribute_list()}")
        keys = set(obj.to_dict(single=True, required=False))
        if not keys <= set(want) or (kind and "new_field" not in keys) or (not kind and "new_field" in keys):
            bad.append(f"{op}: written {sorted(keys)}")
    return {"bad": bad, "told": {}}


EXT = ("Leaf", "Leaf+float", "Leaf+str", "Outer", "Outer+float", "clear")


def job_extend(part, items):
    for ops in items:
        with Scratch() as folder:
            for k in range(2):
                code, r = spawn(extend, folder, ops)
                part.state(("extend", ops, k))
                part.transitions += len(ops)
                part.traces += 1
                if code or "error" in (r or {"error": 1}):
                    part.violation("extended classes: the process dies", f"{code} {r}", {"ops": ops})
                elif r["ok"]["bad"]:
                    part.violation("extended classes: fields are not those of the class", r["ok"]["bad"][0], {"ops": ops, "process": k})


def chunks(items, n):
    items = list(items)
    return [items[i : i + n] for i in range(0, len(items), n)]


def run(ctx):
    q = ctx.quick
    load(set())  # what inspect and pydantic remember is inherited by the processes
    os.environ.pop("MT_METADATA_CACHE_DIR", None)
    singles = [frozenset()] + [frozenset({(lv, k)}) for lv in LEVELS for k in KINDS] + [
        frozenset({(lv, k)}) for lv in LEVELS[1:] for k in NESTED]
    base = frozenset()
    pairs = [(a, b) for v in singles[1:] for a, b in ((base, v), (v, base))]
    if not q:
        pairs = list(itertools.permutations(singles, 2))
    up = [((a, b), o) for a, b in pairs for o in itertools.product(("outer", "down", "up"), ("outer", "down"))]
    some = [frozenset(), frozenset({("Leaf", "added")}), frozenset({("Inner", "removed"), ("Leaf", "enum")}),
            frozenset({("Leaf", "added"), ("Outer", "no nested")})]
    up += [(t, ("outer", "up", "outer")) for t in itertools.product(some, repeat=3)]
    ctx.pmap(job_upgrade, chunks(up, 24))
    kinds = ("crash", "ENOSPC", "EACCES") if q else ("crash", "ENOSPC", "EACCES", "EIO", "ENOENT")
    ctx.pmap(job_faults, [[(o, k, w)] for o in (("outer", "leaf") if q else ORDERS) for k in kinds for w in (False, True)])
    ctx.pmap(job_torn, [(800 if q else 5000, k) for k in range(8)])
    ctx.pmap(job_places, [0])
    leaf, added = (base, ("Leaf",)), (frozenset({("Leaf", "added")}), ("Leaf",))
    inner = (base, ("Inner",))
    progs = [((leaf, leaf), None), ((leaf, added), None), ((inner, leaf), None), ((leaf, leaf), base)]
    bound = 3 if q else 5
    items = [(p, w, bound, pre) for p, w in progs for pre in ((0,), (1,))]
    ctx.pmap(job_processes, [[i] for i in items])
    programs = [(("Above",), ("Above",)), (("Above",), ("Below",)), (("Below",), ("Above",)), (("Above",), ("clear", "Above")),
                (("Above", "clear", "Below"), ("Below", "Above"))]
    n_plans = 0
    jobs = []
    for p in programs:
        with Scratch() as folder:
            steps = run_threads(p, (), folder)[2]
        one = [(k,) for k in range(steps + 1)]
        stride = max(1, steps // (14 if q else 60))
        two = [(a, b) for a in range(0, steps, stride) for b in range(a + 1, steps + 1, stride)]
        plans = [()] + one + two
        n_plans += len(plans)
        jobs += [[(p, c)] for c in chunks(plans, 60)]
    ctx.pmap(job_threads, jobs)
    step = 3 if q else 1
    ctx.pmap(job_interrupt, [[(names, first, 8 * step)] for names in (("Outer",),) for first in range(1, 8 * step, step)])
    n = len(package_classes())
    ctx.pmap(job_package, [[(r, b)] for r in range(0, n, n // (4 if q else 16)) for b in (False, True)])
    ctx.pmap(job_extend, chunks(itertools.product(EXT, repeat=2 if q else 3), 9))
    ctx.bounds = {"library versions": len(singles), "upgrade histories": len(up), "fault kinds": list(kinds),
                  "preemptions of processes": bound, "thread plans": n_plans, "classes of the package": n}
    ctx.assumptions = ["a changed bit that leaves the file readable is not detected", "classes that contain each other are left out"]
