"""C01: a data range is an exact window on its parent file."""

from dtformats import data_range

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


class RefWindow:
    """Reference: positions in a window over a byte string."""

    def __init__(self, data, offset, size):
        self.data = data
        self.offset = offset
        self.size = size
        self.position = 0

    def read(self, size):
        if self.offset < 0 or self.size < 0:
            raise OSError("window")
        if self.position >= self.size:
            return b""
        left = self.size - self.position
        if size is None or size < 0 or size > left:
            size = left
        begin = self.offset + self.position
        chunk = self.data[begin:begin + size]
        self.position = self.position + len(chunk)
        return chunk

    def seek(self, offset, whence):
        if self.size < 0:
            raise OSError("window")
        if whence == 0:
            target = offset
        elif whence == 1:
            target = self.position + offset
        elif whence == 2:
            target = self.size + offset
        else:
            raise OSError("whence")
        if target < 0:
            raise OSError("negative")
        self.position = target


def history(env, file_size, operations, lo, hi):
    data = env.bytes("data", file_size)
    offset = env.int("offset", lo, hi)
    size = env.int("size", lo, hi)
    parent = lib.MemFile(data)
    target = data_range.DataRange(parent, data_offset=offset, data_size=size)
    reference = RefWindow(data, offset, size)
    for number, operation in enumerate(operations):
        if operation == "read":
            amount = env.int(f"amount{number}", lo, hi)
            got = lib.outcome(target.read, amount)
            want = lib.outcome(reference.read, amount)
        elif operation == "readall":
            got = lib.outcome(target.read)
            want = lib.outcome(reference.read, None)
        elif operation == "parent":
            # Somebody else moves the parent's position in between.
            parent.seek(env.int(f"parent{number}", 0, hi))
            continue
        else:
            distance = env.int(f"distance{number}", lo, hi)
            whence = env.int(f"whence{number}", 0, 3)
            got = lib.outcome(target.seek, distance, whence)
            want = lib.outcome(reference.seek, distance, whence)
            got = (got[0], got[1] if got[0] == "raise" else None)
            want = (want[0], want[1])
        env.check(f"{number}:{operation}", got, want)
        env.check(f"{number}:tell", target.tell(), reference.position)
        env.check(f"{number}:get_offset", target.get_offset(),
                  reference.position)
        env.check(f"{number}:get_size", target.get_size(), size)
    env.check("seekable", target.seekable(), True)
    env.reach("history completed")


def defaults(env, file_size, given, lo, hi):
    """Arguments left out: the window begins at 0 and has size 0."""
    data = env.bytes("data", file_size)
    values = {name: env.int(name, lo, hi) for name in given}
    target = data_range.DataRange(lib.MemFile(data), **values)
    reference = RefWindow(data, values.get("data_offset", 0),
                          values.get("data_size", 0))
    amount = env.int("amount", lo, hi)
    env.check("read", lib.outcome(target.read, amount),
              lib.outcome(reference.read, amount))
    env.check("tell", target.tell(), reference.position)
    env.check("get_size", target.get_size(), reference.size)
    distance = env.int("distance", lo, hi)
    got = lib.outcome(target.seek, distance)
    want = lib.outcome(reference.seek, distance, 0)
    env.check("seek", (got[0], got[1] if got[0] == "raise" else None), want)
    env.check("read after seek", lib.outcome(target.read),
              lib.outcome(reference.read, None))
    env.check("get_offset", target.get_offset(), reference.position)
    env.reach("history completed")


def _register():
    names = ["read", "readall", "seek"]
    for first in names:
        for second in names:
            REGISTRY.add(
                "C01", f"{first}-{second}", history,
                {"file_size": 4, "operations": [first, second],
                 "lo": -3, "hi": 6},
                bounds="parent of 4 symbolic bytes; window offset, size, "
                       "arguments in -3..6; 2 operations")
            for third in names:
                REGISTRY.add(
                    "C01", f"{first}-{second}-{third}", history,
                    {"file_size": 4, "operations": [first, second, third],
                     "lo": -2, "hi": 5}, tier="thorough",
                    bounds="parent of 4 symbolic bytes; window offset, size, "
                           "arguments in -2..5; 3 operations")
    REGISTRY.add(
        "C01", "interleaved", history,
        {"file_size": 4, "operations": ["read", "parent", "read"],
         "lo": -1, "hi": 5},
        bounds="parent of 4 symbolic bytes, moved in between by another "
               "user; window offset, size, arguments in -1..5")
    for given in ([], ["data_offset"], ["data_size"]):
        REGISTRY.add(
            "C01", "defaults-" + ("-".join(given) or "none"), defaults,
            {"file_size": 4, "given": given, "lo": -1, "hi": 5},
            bounds="parent of 4 symbolic bytes; window arguments partly "
                   "left out, the others in -1..5")


_register()
