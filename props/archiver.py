"""C39: NSKeyedArchiver property lists are decoded exactly.

The property list itself is handed to the decoder as Python objects, as
plistlib offers them.
"""

import base64
import plistlib
import uuid

from scripts import decode_nskeyedarchiver_plist as script

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

COMPOSITES = (
    "BackgroundItemContainer", "BackgroundItems", "BackgroundLoginItem",
    "Bookmark", "BTMUserSettings", "ItemRecord", "Storage")
ARRAYS = ("NSArray", "NSMutableArray")
DICTIONARIES = ("NSDictionary", "NSMutableDictionary")
SETS = ("NSSet", "NSMutableSet")


class Ref:
    """A reference to an object; xml as a property list in XML has it."""

    def __init__(self, number, xml=False):
        self.number = number
        self.xml = xml

    def plist(self):
        if self.xml:
            return {"CF$UID": self.number}
        result = plistlib.UID(0)
        result.data = self.number
        return result


def plist_of(value):
    """The objects as plistlib offers them."""
    if isinstance(value, Ref):
        return value.plist()
    if isinstance(value, dict):
        return {name: plist_of(item) for name, item in value.items()}
    if isinstance(value, list):
        return [plist_of(item) for item in value]
    return value


class StandIn:
    """Stands in for plistlib: the property list of every file."""

    UID = plistlib.UID
    content = None

    @classmethod
    def load(cls, file_object):
        return cls.content


# Reference


def target(value, objects):
    if not isinstance(value, Ref):
        raise lib.Reject("reference")
    return objects[value.number]


def member(value, name):
    if name not in value:
        raise lib.Reject(name)
    return value[name]


def members(value, objects, without):
    result = {}
    for name, item in value.items():
        if name not in without and item:
            result[name] = decode(item, objects)
    return result


def decode(value, objects):
    while isinstance(value, Ref):
        value = objects[value.number]
    if isinstance(value, bytes):
        return base64.urlsafe_b64encode(value).decode("ascii")
    if isinstance(value, str):
        return None if value == "$null" else value
    if isinstance(value, list):
        return [decode(item, objects) for item in value]
    if not isinstance(value, dict):
        return value
    if not value.get("$class"):
        return plist_of(value)
    kind = decode(value["$class"], objects).get("$classname")
    if not kind:
        return plist_of(value)
    if kind in COMPOSITES:
        return members(value, objects, ("$class",))
    if kind in ARRAYS:
        return [decode(item, objects) for item in member(value, "NS.objects")]
    if kind in DICTIONARIES:
        keys = member(value, "NS.keys")
        values = member(value, "NS.objects")
        if len(keys) != len(values):
            raise lib.Reject("sizes")
        result = {}
        for index, key in enumerate(keys):
            result[decode(key, objects)] = decode(values[index], objects)
        return result
    if kind in SETS:
        result = []
        for item in member(value, "NS.objects"):
            item = target(item, objects)
            if isinstance(item, dict):
                result.append(members(item, objects, ("$class", "container")))
            else:
                result.append(decode(item, objects))
        return result
    if kind == "NSHashTable":
        return members(target(member(value, "$1"), objects), objects,
                       ("$class", "container"))
    if kind == "NSURL":
        base = member(value, "NS.base")
        relative = decode(member(value, "NS.relative"), objects)
        base = decode(base, objects)
        return f"{base:s}/{relative:s}" if base else relative
    if kind == "NSUUID":
        data = member(value, "NS.uuidbytes")
        if len(data) != 16:
            raise lib.Reject("size")
        return str(uuid.UUID(bytes=data))
    raise lib.Reject("class")


def decode_file(plist):
    if (plist.get("$archiver") != "NSKeyedArchiver"
            or plist.get("$version") != 100000):
        raise lib.Reject("archiver")
    objects = plist.get("$objects") or []
    result = {}
    for name, value in plist.get("$top", {}).items():
        if isinstance(value, Ref):
            value = decode(objects[value.number], objects)
        result[name] = value
    return result


def decide(env, plist):
    original = script.plistlib
    script.plistlib = StandIn
    StandIn.content = plist_of(plist)
    try:
        got = lib.outcome(
            script.NSKeyedArchiverDecoder().DecodePlistFile, "/dev/null")
    finally:
        script.plistlib = original
        StandIn.content = None
    try:
        want = ("ok", decode_file(plist))
    except lib.Reject:
        want = ("raise", "RuntimeError")
    env.check("outcome", got, want)
    env.reach(want[0])


# Cases.  References only lead on, so that no object contains itself.


def classes(*names):
    return [{"$classname": name, "$classes": [name, "NSObject"]}
            for name in names]


def archive(objects, **top):
    top = top or {"root": Ref(1)}
    return {"$archiver": "NSKeyedArchiver", "$version": 100000,
            "$objects": ["$null", *objects], "$top": top}


def ref(env, name, low, high):
    """A reference to nothing or to an object in a range."""
    number = env.int(name, low - 1, high)
    number = env.pick(f"{name}null", [0, 1]) and number
    return Ref(number, xml=bool(env.pick(f"{name}xml", [0, 1])))


LEAVES = ["text", 7, True, 1.5, b"\x00\xfb\xff", "", 0, {"plain": 1}, "$null"]


def containers(env, kind, count):
    """An array, set or composite of references to any of a few objects."""
    leaf = env.pick("leaf", LEAVES)
    refs = [Ref(env.int(f"ref{i}", 2 if i else 0, 4)) for i in range(count)]
    uid = {"$class": Ref(5, xml=True)}
    if kind in COMPOSITES or kind == "NSHashTable":
        for index, item in enumerate(refs):
            uid[("first", "container", "third")[index]] = item
        uid["number"] = env.int("number", -1, 1)
    else:
        uid["NS.objects"] = refs
    objects = [uid, leaf, "other", {"$class": Ref(6), "NS.objects": [Ref(3)]},
               *classes(kind, "NSArray")]
    if kind == "NSHashTable":
        # The table is reached through another object.
        objects[0] = {"$class": Ref(5), "$0": 1, "$1": Ref(7), "$2": 3}
        objects.append(uid)
    env.assume(refs[0].number != 1)
    decide(env, archive(objects))


def elements(env, kind, count):
    """A set of objects: a record, a string or a leaf."""
    refs = [Ref(env.int(f"ref{i}", 3, 5), xml=bool(env.pick(f"xml{i}", [0, 1])))
            for i in range(count)]
    objects = [
        {"$class": Ref(2), "NS.objects": refs}, *classes(kind),
        {"$class": Ref(6), "name": Ref(4), "container": Ref(1), "flag": 1},
        "text", env.pick("leaf", LEAVES[:6]), *classes("ItemRecord")]
    decide(env, archive(objects))


def dictionary(env, kind, keys, values):
    names = [env.int(f"key{i}", 3, 5) for i in range(keys)]
    items = [env.int(f"value{i}", 0, 6) for i in range(values)]
    for item in items:
        env.assume(item != 1)
        env.assume(item != 2)
    objects = [
        {"$class": Ref(2), "NS.keys": [Ref(x) for x in names],
         "NS.objects": [Ref(x) for x in items]}, *classes(kind),
        "a", "b", "c", env.pick("leaf", LEAVES)]
    decide(env, archive(objects))


def url(env, xml):
    base = env.pick("base", [0, 3, 4, 5])
    relative = env.pick("relative", [3, 4])
    objects = [
        {"$class": Ref(2), "NS.base": Ref(base, xml=xml),
         "NS.relative": Ref(relative)}, *classes("NSURL"), "file:///a", "b",
        {"$class": Ref(2), "NS.base": Ref(0), "NS.relative": Ref(4)}]
    decide(env, archive(objects))


def identifier(env, size):
    objects = [{"$class": Ref(2), "NS.uuidbytes": env.bytes("uuid", size)},
               *classes("NSUUID")]
    decide(env, archive(objects))


def missing(env, kind, names):
    """Members that are there or not."""
    value = {"$class": Ref(2)}
    for name, item in names.items():
        if env.pick(f"has {name}", [0, 1]):
            value[name] = item
    decide(env, archive([value, *classes(kind), "x"]))


def class_name(env, size):
    """Every class name of a few characters, and known ones changed."""
    name = env.pick("name", [
        "NSArray", "NSSet", "NSURL", "Storage", "Bookmark", "NSUUID",
        "NSDictionary", "NSMutableSet", "NSHashTable", "ItemRecord"])
    at = env.pick("at", [0, len(name) - 1])
    code = env.int("char", 0x20, 0x7e)
    name = name[:at] + chr(code) + name[at + 1:]
    objects = [
        {"$class": Ref(2), "NS.objects": [Ref(3)], "NS.keys": [Ref(3)],
         "NS.base": Ref(0), "NS.relative": Ref(3), "$1": Ref(4),
         "NS.uuidbytes": bytes(range(16))}, {"$classname": name}, "x",
        {"y": Ref(3)}]
    decide(env, archive(objects))


def no_class(env, classname):
    value = {"member": Ref(3)}
    if env.pick("class", [0, 1]):
        value["$class"] = Ref(2)
    decide(env, archive([value, {"$classname": classname} if classname
                         else {"other": 1}, "x"]))


def header(env, part):
    plist = archive(["x", "y"], first=Ref(1), second=Ref(2), third="inline",
                    fourth=Ref(0), fifth=Ref(2, xml=True))
    if part == "version":
        plist["$version"] = env.int("version", 99990, 100010)
    elif part == "archiver":
        plist["$archiver"] = "NSKeyedArchive" + chr(env.int("char", 0x20, 0x7e))
    elif part == "top":
        plist["$top"] = {
            "first": Ref(env.int("uid", 0, 2)),
            "other": Ref(env.int("uid2", 0, 2), xml=True)}
    elif part == "absent":
        for name in ("$archiver", "$version", "$top"):
            if env.pick(name, [0, 1]):
                del plist[name]
    elif part == "empty":
        plist = archive([], only="text")
        del plist["$objects"]
    decide(env, plist)


def word(env, name, size):
    return "".join([chr(env.int(f"{name}{x}", 0x20, 0x7e))
                    for x in range(size)])


def url_texts(env, base, relative):
    """A URL of which the texts end and start with any character."""
    objects = [
        {"$class": Ref(2), "NS.base": Ref(4), "NS.relative": Ref(5)},
        *classes("NSURL"), "file:" + word(env, "base", base),
        word(env, "relative", relative) + "b"]
    objects.insert(2, "-")
    decide(env, archive(objects))


def texts(env, prefix, size):
    """Every text of a few characters."""
    objects = [{"$class": Ref(2), "NS.objects": [Ref(3), Ref(4)]},
               *classes("NSArray"), prefix + word(env, "text", size), "end"]
    decide(env, archive(objects, root=Ref(1), text=Ref(3)))


def almost_reference(env, name):
    """A record that has a member like that of a reference, and others."""
    value = {name: env.int("number", 0, 3), "other": Ref(3)}
    if env.pick("first", [0, 1]):
        value = {"other": Ref(3), name: value[name]}
    kind = env.pick("kind", ["NSArray", "NSSet"])
    objects = [{"$class": Ref(2), "NS.objects": [Ref(4), Ref(3)]},
               *classes(kind), "x", value, "y"]
    decide(env, archive(objects, root=Ref(1), direct=Ref(4)))


def number(env, bits):
    """Every integer."""
    value = env.int("value", -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    decide(env, archive([
        {"$class": Ref(3), "NS.objects": [value, Ref(2)]}, value,
        *classes("NSArray")]))


def _register():
    add = REGISTRY.add
    for kind in (*ARRAYS, *COMPOSITES, "NSHashTable"):
        for count in (1, 2):
            add("C39", f"container-{kind}-{count}", containers,
                {"kind": kind, "count": count},
                tier="quick" if count == 2 or kind in ARRAYS else "thorough",
                bounds=f"{kind} of {count} references to any of 4 objects, "
                       "one of them of 9 kinds")
    for kind in SETS:
        for count in (0, 1, 2, 3):
            add("C39", f"set-{kind}-{count}", elements,
                {"kind": kind, "count": count},
                tier="quick" if count < 3 else "thorough",
                bounds=f"{kind} of {count} references to a record, a string "
                       "or another value")
    for kind in DICTIONARIES:
        for keys, values in ((0, 0), (1, 1), (2, 2), (1, 2), (2, 1)):
            add("C39", f"dictionary-{kind}-{keys}-{values}", dictionary,
                {"kind": kind, "keys": keys, "values": values},
                bounds=f"{kind} of {keys} keys and {values} values")
    for xml in (False, True):
        add("C39", f"url-{xml}", url, {"xml": xml},
            bounds="URL with base and relative parts of every kind")
    for size in (15, 16, 17):
        add("C39", f"uuid-{size}", identifier, {"size": size},
            bounds=f"UUID of {size} symbolic bytes")
    for kind, names in (
            ("NSArray", {"NS.objects": [Ref(3)]}),
            ("NSSet", {"NS.objects": [Ref(3)]}),
            ("NSDictionary", {"NS.keys": [Ref(3)], "NS.objects": [Ref(3)]}),
            ("NSURL", {"NS.base": Ref(0), "NS.relative": Ref(3)}),
            ("NSUUID", {"NS.uuidbytes": bytes(16)}),
            ("NSHashTable", {"$0": 1, "$1": 5}),
            ("Unknown", {"x": 1})):
        add("C39", f"missing-{kind}", missing, {"kind": kind, "names": names},
            bounds=f"{kind} with members that are there or not")
    add("C39", "class-name", class_name, {"size": 1},
        bounds="10 class names with a symbolic first or last character")
    for name in ("", "NSArray"):
        add("C39", f"no-class-{name}", no_class, {"classname": name},
            bounds="object with and without class")
    for part in ("version", "archiver", "top", "absent", "empty", "as is"):
        add("C39", f"header-{part}", header, {"part": part},
            bounds=f"property list with variable {part}")
    for base, relative in ((0, 0), (1, 0), (0, 1), (2, 1)):
        add("C39", f"url-texts-{base}-{relative}", url_texts,
            {"base": base, "relative": relative},
            bounds=f"{base} characters at the end of the base, {relative} "
                   "at the start of the relative part")
    for prefix, size in (("", 1), ("", 2), ("$nul", 1), ("$null", 1),
                         ("$", 2)):
        add("C39", f"text-{prefix}-{size}", texts,
            {"prefix": prefix, "size": size},
            bounds=f"text of {size} characters after {prefix!r}")
    for name in ("CF$UID", "CF$UI", "$classname"):
        add("C39", f"almost-{name}", almost_reference, {"name": name},
            bounds=f"a record with a member {name} and another")
    add("C39", "number", number, {"bits": 64}, bounds="every 64-bit integer")


_register()
