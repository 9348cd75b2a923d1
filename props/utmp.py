"""C08: login records are decoded field by field."""

from dtformats import utmp

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

LINUX_TYPES = {
    0: "EMPTY", 1: "RUN_LVL", 2: "BOOT_TIME", 3: "NEW_TIME", 4: "OLD_TIME",
    5: "INIT_PROCESS", 6: "LOGIN_PROCESS", 7: "USER_PROCESS",
    8: "DEAD_PROCESS", 9: "ACCOUNTING"}

MAC_TYPES = {
    0: "EMPTY", 1: "RUN_LVL", 2: "BOOT_TIME", 3: "OLD_TIME", 4: "NEW_TIME",
    5: "INIT_PROCESS", 6: "LOGIN_PROCESS", 7: "USER_PROCESS",
    8: "DEAD_PROCESS", 9: "ACCOUNTING", 10: "SIGNATURE", 11: "SHUTDOWN_TIME"}

LINUX_SIZE = 384
MAC_SIZE = 628


def text_of(data):
    """Text of a fixed-size field: UTF-8 with the NUL bytes left out."""
    value = bytes([x for x in data if x != 0])
    try:
        return value.decode("utf-8")
    except UnicodeDecodeError:
        return "INVALID"


def linux_entry(out, data, offset):
    kind = lib.sint(data, offset, 4)
    name = LINUX_TYPES.get(kind, "UNKNOWN")
    out.append(lib.line("Type of login", f"0x{kind:08x} ({name:s})"))
    out.append(lib.line("PID", lib.uint(data, offset + 4, 4)))
    out.append(lib.line("Terminal", text_of(data[offset + 8:offset + 40])))
    out.append(lib.line("Terminal ID", lib.uint(data, offset + 40, 4)))
    out.append(lib.line("Username", text_of(data[offset + 44:offset + 76])))
    out.append(lib.line("Hostname", text_of(data[offset + 76:offset + 332])))
    out.append(lib.line("Termination status",
                        f"0x{lib.sint(data, offset + 332, 2):04x}"))
    out.append(lib.line("Exit status",
                        f"0x{lib.sint(data, offset + 334, 2):04x}"))
    out.append(lib.line("Session", lib.sint(data, offset + 336, 4)))
    out.append(lib.line("Timestamp",
                        lib.posix_time(lib.sint(data, offset + 340, 4))))
    out.append(lib.line("Microseconds", lib.sint(data, offset + 344, 4)))
    address = data[offset + 348:offset + 364]
    if address[4:] == b"\x00" * 12:
        shown = f"{address[0]}.{address[1]}.{address[2]}.{address[3]}"
    else:
        shown = ":".join([
            f"{lib.uint(address, i, 2, big=True):04x}"
            for i in range(0, 16, 2)])
    out.append(lib.line("IP address", shown))
    out.append(lib.dump("Unknown1", data[offset + 364:offset + 384]))


def linux_file(out, data):
    offset = 0
    while offset < len(data):
        if offset + LINUX_SIZE > len(data):
            raise lib.Reject("truncated entry")
        linux_entry(out, data, offset)
        offset += LINUX_SIZE


def mac_entry(out, data, offset):
    out.append(lib.line("Username", text_of(data[offset:offset + 256])))
    out.append(lib.line("Terminal ID", lib.uint(data, offset + 256, 4)))
    out.append(lib.line("Terminal", text_of(data[offset + 260:offset + 292])))
    out.append(lib.line("PID", lib.uint(data, offset + 292, 4)))
    kind = lib.sint(data, offset + 296, 2)
    name = MAC_TYPES.get(kind, "UNKNOWN")
    out.append(lib.line("Type of login", f"0x{kind:04x} ({name:s})"))
    out.append(lib.line("Unknown1",
                        f"0x{lib.sint(data, offset + 298, 2):04x}"))
    out.append(lib.line("Timestamp",
                        lib.posix_time(lib.sint(data, offset + 300, 4))))
    out.append(lib.line("Microseconds", lib.sint(data, offset + 304, 4)))
    out.append(lib.line("Hostname", text_of(data[offset + 308:offset + 564])))
    out.append(lib.dump("Unknown2", data[offset + 564:offset + 628]))


def mac_file(out, data):
    if len(data) < MAC_SIZE:
        raise lib.Reject("truncated entry")
    mac_entry(out, data, 0)
    if data[:11] != b"utmpx-1.00\x00":
        raise lib.Reject("signature")
    if lib.sint(data, 296, 2) != 10:
        raise lib.Reject("type")
    offset = MAC_SIZE
    while offset < len(data):
        if offset + MAC_SIZE > len(data):
            raise lib.Reject("truncated entry")
        mac_entry(out, data, offset)
        offset += MAC_SIZE


def make_linux(debug, writer):
    return utmp.LinuxLibc6UtmpFile(debug=debug, output_writer=writer)


def make_mac(debug, writer):
    return utmp.MacOSXUtmpxFile(debug=debug, output_writer=writer)


def run(env, kind, base, holes, size, before=()):
    data = bytes.fromhex(base)
    data = lib.overlay(data, [
        (offset, env.bytes(f"at{offset}", length))
        for offset, length in holes])
    data = data[:size]
    make = make_linux if kind == "linux" else make_mac
    decoder = linux_file if kind == "linux" else mac_file
    result, text, _ = lib.read_file(env, make, data, before=before)
    want, expected = lib.reference(decoder, data)
    env.check("outcome", result, want)
    env.check("values", text, expected)
    env.reach(result[0])


run.reusable = True


def _register():
    linux = bytes(LINUX_SIZE)
    numbers = [(0, 8), (40, 4), (332, 16), (364, 20)]
    add = REGISTRY.add
    for count in (1, 2):
        base = (linux * count).hex()
        shift = LINUX_SIZE * (count - 1)
        add("C08", f"linux-numbers-{count}", run,
            {"kind": "linux", "base": base, "size": LINUX_SIZE * count,
             "holes": [(o + shift, n) for o, n in numbers]},
            bounds=f"{count} entries, every integer field and the unknown "
                   "data of the last one symbolic")
        add("C08", f"linux-address-{count}", run,
            {"kind": "linux", "base": base, "size": LINUX_SIZE * count,
             "holes": [(348 + shift, 16)]},
            bounds="all 16 address bytes symbolic")
        for name, offset, length in (
                ("terminal", 8, 32), ("username", 44, 32),
                ("hostname", 76, 256)):
            add("C08", f"linux-{name}-{count}", run,
                {"kind": "linux", "base": base, "size": LINUX_SIZE * count,
                 "holes": [(offset + shift, 3),
                           (offset + length - 1 + shift, 1)]},
                bounds=f"first 3 bytes and last byte of {name} symbolic")
    for size in (0, 1, 383, 385, 767):
        add("C08", f"linux-size-{size}", run,
            {"kind": "linux", "base": (linux * 2).hex(), "size": size,
             "holes": [(340, 4)]}, bounds=f"file of {size} bytes")
    header = bytearray(MAC_SIZE)
    header[:11] = b"utmpx-1.00\x00"
    header[296] = 10
    base = (bytes(header) + bytes(MAC_SIZE)).hex()
    add("C08", "mac-numbers", run,
        {"kind": "mac", "base": base, "size": 2 * MAC_SIZE,
         "holes": [(MAC_SIZE + 256, 4), (MAC_SIZE + 292, 16),
                   (MAC_SIZE + 564, 64)]},
        bounds="every integer field and the unknown data of the second "
               "entry symbolic")
    for name, offset, length in (
            ("username", 0, 256), ("terminal", 260, 32),
            ("hostname", 308, 256)):
        add("C08", f"mac-{name}", run,
            {"kind": "mac", "base": base, "size": 2 * MAC_SIZE,
             "holes": [(MAC_SIZE + offset, 3),
                       (MAC_SIZE + offset + length - 1, 1)]},
            bounds=f"first 3 bytes and last byte of {name} symbolic")
    add("C08", "mac-header", run,
        {"kind": "mac", "base": base, "size": 2 * MAC_SIZE,
         "holes": [(8, 4), (296, 2), (300, 4)]},
        bounds="end of the signature, type and timestamp of the header "
               "symbolic")
    for size in (0, 627, 628, 629, 1255):
        add("C08", f"mac-size-{size}", run,
            {"kind": "mac", "base": base, "size": size,
             "holes": [(300, 4)]}, bounds=f"file of {size} bytes")


_register()

REGISTRY.add_reuse()
