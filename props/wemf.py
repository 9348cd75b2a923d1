"""C29: Windows (Enhanced) Metafile Format (WMF and EMF) files."""

from dtformats import wemf

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


def names(text, prefix):
    return {int(x.split("=")[0], 16): prefix + x.split("=")[1]
            for x in text.split()}


EMF_TYPES = names("""
1=HEADER 2=POLYBEZIER 3=POLYGON 4=POLYLINE 5=POLYBEZIERTO 6=POLYLINETO
7=POLYPOLYLINE 8=POLYPOLYGON 9=SETWINDOWEXTEX a=SETWINDOWORGEX
b=SETVIEWPORTEXTEX c=SETVIEWPORTORGEX d=SETBRUSHORGEX e=EOF f=SETPIXELV
10=SETMAPPERFLAGS 11=SETMAPMODE 12=SETBKMODE 13=SETPOLYFILLMODE 14=SETROP2
15=SETSTRETCHBLTMODE 16=SETTEXTALIGN 17=SETCOLORADJUSTMENT 18=SETTEXTCOLOR
19=SETBKCOLOR 1a=OFFSETCLIPRGN 1b=MOVETOEX 1c=SETMETARGN
1d=EXCLUDECLIPRECT 1e=INTERSECTCLIPRECT 1f=SCALEVIEWPORTEXTEX
20=SCALEWINDOWEXTEX 21=SAVEDC 22=RESTOREDC 23=SETWORLDTRANSFORM
24=MODIFYWORLDTRANSFORM 25=SELECTOBJECT 26=CREATEPEN
27=CREATEBRUSHINDIRECT 28=DELETEOBJECT 29=ANGLEARC 2a=ELLIPSE 2b=RECTANGLE
2c=ROUNDRECT 2d=ARC 2e=CHORD 2f=PIE 30=SELECTPALETTE 31=CREATEPALETTE
32=SETPALETTEENTRIES 33=RESIZEPALETTE 34=REALIZEPALETTE 35=EXTFLOODFILL
36=LINETO 37=ARCTO 38=POLYDRAW 39=SETARCDIRECTION 3a=SETMITERLIMIT
3b=BEGINPATH 3c=ENDPATH 3d=CLOSEFIGURE 3e=FILLPATH 3f=STROKEANDFILLPATH
40=STROKEPATH 41=FLATTENPATH 42=WIDENPATH 43=SELECTCLIPPATH 44=ABORTPATH
46=COMMENT 47=FILLRGN 48=FRAMERGN 49=INVERTRGN 4a=PAINTRGN
4b=EXTSELECTCLIPRGN 4c=BITBLT 4d=STRETCHBLT 4e=MASKBLT 4f=PLGBLT
50=SETDIBITSTODEVICE 51=STRETCHDIBITS 52=EXTCREATEFONTINDIRECTW
53=EXTTEXTOUTA 54=EXTTEXTOUTW 55=POLYBEZIER16 56=POLYGON16 57=POLYLINE16
58=POLYBEZIERTO16 59=POLYLINETO16 5a=POLYPOLYLINE16 5b=POLYPOLYGON16
5c=POLYDRAW16 5d=CREATEMONOBRUSH 5e=CREATEDIBPATTERNBRUSHPT
5f=EXTCREATEPEN 60=POLYTEXTOUTA 61=POLYTEXTOUTW 62=SETICMMODE
63=CREATECOLORSPACE 64=SETCOLORSPACE 65=DELETECOLORSPACE 66=GLSRECORD
67=GLSBOUNDEDRECORD 68=PIXELFORMAT 69=DRAWESCAPE 6a=EXTESCAPE
6c=SMALLTEXTOUT 6d=FORCEUFIMAPPING 6e=NAMEDESCAPE 6f=COLORCORRECTPALETTE
70=SETICMPROFILEA 71=SETICMPROFILEW 72=ALPHABLEND 73=SETLAYOUT
74=TRANSPARENTBLT 76=GRADIENTFILL 77=SETLINKEDUFIS 78=SETTEXTJUSTIFICATION
79=COLORMATCHTOTARGETW 7a=CREATECOLORSPACEW
""", "EMR_")

STOCK_OBJECTS = names("""
80000000=WHITE_BRUSH 80000001=LTGRAY_BRUSH 80000002=GRAY_BRUSH
80000003=DKGRAY_BRUSH 80000004=BLACK_BRUSH 80000005=NULL_BRUSH
80000006=WHITE_PEN 80000007=BLACK_PEN 80000008=NULL_PEN
8000000a=OEM_FIXED_FONT 8000000b=ANSI_FIXED_FONT 8000000c=ANSI_VAR_FONT
8000000d=SYSTEM_FONT 8000000e=DEVICE_DEFAULT_FONT 8000000f=DEFAULT_PALETTE
80000010=SYSTEM_FIXED_FONT 80000011=DEFAULT_GUI_FONT 80000012=DC_BRUSH
80000013=DC_PEN
""", "")

WMF_TYPES = names("""
0=EOF 1e=SAVEDC 35=REALIZEPALETTE 37=SETPALENTRIES f7=CREATEPALETTE
102=SETBKMODE 103=SETMAPMODE 104=SETROP2 105=SETRELABS 106=SETPOLYFILLMODE
107=SETSTRETCHBLTMODE 108=SETTEXTCHAREXTRA 127=RESTOREDC 12a=INVERTREGION
12b=PAINTREGION 12c=SELECTCLIPREGION 12d=SELECTOBJECT 12e=SETTEXTALIGN
139=RESIZEPALETTE 142=DIBCREATEPATTERNBRUSH 149=SETLAYOUT 1f0=DELETEOBJECT
1f9=CREATEPATTERNBRUSH 201=SETBKCOLOR 209=SETTEXTCOLOR
20a=SETTEXTJUSTIFICATION 20b=SETWINDOWORG 20c=SETWINDOWEXT
20d=SETVIEWPORTORG 20e=SETVIEWPORTEXT 20f=OFFSETWINDOWORG
211=OFFSETVIEWPORTORG 213=LINETO 214=MOVETO 220=OFFSETCLIPRGN
228=FILLREGION 231=SETMAPPERFLAGS 234=SELECTPALETTE 2fa=CREATEPENINDIRECT
2fb=CREATEFONTINDIRECT 2fc=CREATEBRUSHINDIRECT 324=POLYGON 325=POLYLINE
410=SCALEWINDOWEXT 412=SCALEVIEWPORTEXT 415=EXCLUDECLIPRECT
416=INTERSECTCLIPRECT 418=ELLIPSE 419=FLOODFILL 41b=RECTANGLE 41f=SETPIXEL
429=FRAMEREGION 436=ANIMATEPALETTE 521=TEXTOUT 538=POLYPOLYGON
548=EXTFLOODFILL 61c=ROUNDRECT 61d=PATBLT 626=ESCAPE 6ff=CREATEREGION
817=ARC 81a=PIE 830=CHORD 922=BITBLT 940=DIBBITBLT a32=EXTTEXTOUT
b23=STRETCHBLT b41=DIBSTRETCHBLT d33=SETDIBTODEV f43=STRETCHDIB
""", "META_")

MAP_MODES = names("""
1=TEXT 2=LOMETRIC 3=HIMETRIC 4=LOENGLISH 5=HIENGLISH 6=TWIPS 7=ISOTROPIC
8=ANISOTROPIC
""", "MM_")

STRETCH_MODES = names("""
1=BLACKONWHITE 2=WHITEONBLACK 3=COLORONCOLOR 4=HALFTONE
""", "")

RASTER_OPERATIONS = names("""
42=BLACKNESS 10289=DPSOON 20c89=DPSONA 300aa=PSON 40c88=SDPONA 500a9=DPON
60865=PDSXNON 702c5=PDSAON 80f08=SDPNAA 90245=PDSXON a0329=DPNA
b0b2a=PSDNAON c0324=SPNA d0b25=PDSNAON e08a5=PDSONON f0001=PN
100c85=PDSONA 1100a6=NOTSRCERAS 120868=SDPXNON 1302c8=SDPAON
140869=DPSXNON 1502c9=DPSAON 165cca=PSDPSANAXX 171d54=SSPXDSXAXN
180d59=SPXPDXA 191cc8=SDPSANAXN 1a06c5=PDSPAOX 1b0768=SDPSXAXN
1c06ca=PSDPAOX 1d0766=DSPDXAXN 1e01a5=PDSOX 1f0385=PDSOAN 200f09=DPSNAA
210248=SDPXON 220326=DSNA 230b24=SPDNAON 240d55=SPXDSXA 251cc5=PDSPANAXN
2606c8=SDPSAOX 271868=SDPSXNOX 280369=DPSXA 2916ca=PSDPSAOXXN
2a0cc9=DPSANA 2b1d58=SSPXPDXAXN 2c0784=SPDSOAX 2d060a=PSDNOX
2e064a=PSDPXOX 2f0e2a=PSDNOAN 30032a=PSNA 310b28=SDPNAON 320688=SDPSOOX
330008=NOTSRCCOPY 3406c4=SPDSAOX 351864=SPDSXNOX 3601a8=SDPOX
370388=SDPOAN 38078a=PSDPOAX 390604=SPDNOX 3a0644=SPDSXOX 3b0e24=SPDNOAN
3c004a=PSX 3d18a4=SPDSONOX 3e1b24=SPDSNAOX 3f00ea=PSAN 400f0a=PSDNAA
410249=DPSXON 420d5d=SDXPDXA 431cc4=SPDSANAXN 440328=SRCERASE
450b29=DPSNAON 4606c6=DSPDAOX 47076a=PSDPXAXN 480368=SDPXA
4916c5=PDSPDAOXXN 4a0789=DPSDOAX 4b0605=PDSNOX 4c0cc8=SDPANA
4d1954=SSPXDSXOXN 4e0645=PDSPXOX 4f0e25=PDSNOAN 500325=PDNA 510b26=DSPNAON
5206c9=DPSDAOX 530764=SPDSXAXN 5408a9=DPSONON 550009=DSTINVERT
5601a9=DPSOX 570389=DPSOAN 580785=PDSPOAX 590609=DPSNOX 5a0049=PATINVERT
5b18a9=DPSDONOX 5c0649=DPSDXOX 5d0e29=DPSNOAN 5e1b29=DPSDNAOX 5f00e9=DPAN
600365=PDSXA 6116c6=DSPDSAOXXN 620786=DSPDOAX 630608=SDPNOX 640788=SDPSOAX
650606=DSPNOX 660046=SRCINVERT 6718a8=SDPSONOX 6858a6=DSPDSONOXXN
690145=PDSXXN 6a01e9=DPSAX 6b178a=PSDPSOAXXN 6c01e8=SDPAX
6d1785=PDSPDOAXXN 6e1e28=SDPSNOAX 6f0c65=PDSXNAN 700cc5=PDSANA
711d5c=SSDXPDXAXN 720648=SDPSXOX 730e28=SDPNOAN 740646=DSPDXOX
750e26=DSPNOAN 761b28=SDPSNAOX 7700e6=DSAN 7801e5=PDSAX 791786=DSPDSOAXXN
7a1e29=DPSDNOAX 7b0c68=SDPXNAN 7c1e24=SPDSNOAX 7d0c69=DPSXNAN
7e0955=SPXDSXO 7f03c9=DPSAAN 8003e9=DPSAA 810975=SPXDSXON 820c49=DPSXNA
831e04=SPDSNOAXN 840c48=SDPXNA 851e05=PDSPNOAXN 8617a6=DSPDSOAXX
8701c5=PDSAXN 8800c6=SRCAND 891b08=SDPSNAOXN 8a0e06=DSPNOA 8b0666=DSPDXOXN
8c0e08=SDPNOA 8d0668=SDPSXOXN 8e1d7c=SSDXPDXAX 8f0ce5=PDSANAN
900c45=PDSXNA 911e08=SDPSNOAXN 9217a9=DPSDPOAXX 9301c4=SPDAXN
9417aa=PSDPSOAXX 9501c9=DPSAXN 960169=DPSXX 97588a=PSDPSONOXX
981888=SDPSONOXN 990066=DSXN 9a0709=DPSNAX 9b07a8=SDPSOAXN 9c0704=SPDNAX
9d07a6=DSPDOAXN 9e16e6=DSPDSAOXX 9f0345=PDSXAN a000c9=DPA a11b05=PDSPNAOXN
a20e09=DPSNOA a30669=DPSDXOXN a41885=PDSPONOXN a50065=PDXN a60706=DSPNAX
a707a5=PDSPOAXN a803a9=DPSOA a90189=DPSOXN aa0029=D ab0889=DPSONO
ac0744=SPDSXAX ad06e9=DPSDAOXN ae0b06=DSPNAO af0229=DPNO b00e05=PDSNOA
b10665=PDSPXOXN b21974=SSPXDSXOX b30ce8=SDPANAN b4070a=PSDNAX
b507a9=DPSDOAXN b616e9=DPSDPAOXX b70348=SDPXAN b8074a=PSDPXAX
b906e6=DSPDAOXN ba0b09=DPSNAO bb0226=MERGEPAINT bc1ce4=SPDSANAX
bd0d7d=SDXPDXAN be0269=DPSXO bf08c9=DPSANO c000ca=MERGECOPY
c11b04=SPDSNAOXN c21884=SPDSONOXN c3006a=PSXN c40e04=SPDNOA
c50664=SPDSXOXN c60708=SDPNAX c707aa=PSDPOAXN c803a8=SDPOA c90184=SPDOXN
ca0749=DPSDXAX cb06e4=SPDSAOXN cc0020=SRCCOPY cd0888=SDPONO ce0b08=SDPNAO
cf0224=SPNO d00e0a=PSDNOA d1066a=PSDPXOXN d20705=PDSNAX d307a4=SPDSOAXN
d41d78=SSPXPDXAX d50ce9=DPSANAN d616ea=PSDPSAOXX d70349=DPSXAN
d80745=PDSPXAX d906e8=SDPSAOXN da1ce9=DPSDANAX db0d75=SPXDSXAN
dc0b04=SPDNAO dd0228=SDNO de0268=SDPXO df08c8=SDPANO e003a5=PDSOA
e10185=PDSOXN e20746=DSPDXAX e306ea=PSDPAOXN e40748=SDPSXAX
e506e5=PDSPAOXN e61ce8=SDPSANAX e70d79=SPXPDXAN e81d74=SSPXDSXAX
e95ce6=DSPDSANAXXN ea02e9=DPSAO eb0849=DPSXNO ec02e8=SDPAO ed0848=SDPXNO
ee0086=SRCPAINT ef0a08=SDPNOO f00021=PATCOPY f10885=PDSONO f20b05=PDSNAO
f3022a=PSNO f40b0a=PSDNAO f50225=PDNO f60265=PDSXO f708c5=PDSANO
f802e5=PDSAO f90845=PDSXNO fa0089=DPO fb0a09=PATPAINT fc008a=PSO
fd0a0a=PSDNOO fe02a9=DPSOO ff0062=WHITENESS
""", "")


def named(table, value, unknown="UNKNOWN"):
    return table.get(value, unknown)


def make_emf(debug, writer):
    return wemf.EMFFile(debug=debug, output_writer=writer)


def emf_type(value):
    return f"0x{value:04x} ({named(EMF_TYPES, value):s})"


def stock_object(value):
    name = STOCK_OBJECTS.get(value)
    if name:
        return f"0x{value:08x} ({name:s})"
    return f"0x{value:08x}"


EMF_DATA = {
    0x18: (("Color", 4, "x4"),),
    0x25: (("Object identifier", 4, stock_object),)}


def emf(out, data):
    values = lib.layout(out, data, 0, (
        ("Record type", 4, emf_type), ("Record size", 4, "d"),
        ("Bounds", 16, "-"), ("Frame", 16, "-"), ("Signature", 4, "x4"),
        ("Format version", 4, "x4"), ("File size", 4, "d"),
        ("Number of records", 4, "d"), ("Number of handles", 2, "d"),
        ("Unknown (reserved)", 2, "x4"), ("Description string size", 4, "d"),
        ("Description string offset", 4, "x4"), ("Devices", 40, "-")))
    offset = values[1]
    if offset < 88:
        raise lib.Reject("record size")
    while offset < len(data):
        offset += record(out, data, offset, EMF_DATA, (
            ("Record type", 4, emf_type), ("Record size", 4, "d")), 1, 1)


def record(out, data, offset, formats, members, index, unit):
    """A record: header and data; its size includes both."""
    values = lib.layout(out, data, offset, members)
    header_size = sum([member[1] for member in members])
    size = values[index] * unit
    if size < header_size:
        raise lib.Reject("record size")
    if offset + size > len(data):
        raise lib.Unspecified("record data")
    values_data = data[offset + header_size:offset + size]
    if size > header_size:
        out.append(lib.dump("Record data", values_data))
    layout = formats.get(values[1 - index])
    if layout:
        if sum([member[1] for member in layout]) > size - header_size:
            raise lib.Unspecified("record data")
        order = [member[0] for member in layout]
        for prefix in ("", "Source ", "Destination "):
            label = prefix + "Y coordinate"
            if label in order:
                # Stored as y, x but shown as x, y.
                at = order.index(label)
                order[at], order[at + 1] = order[at + 1], order[at]
        lib.layout(out, values_data, 0, layout, order=order)
    return size


run_emf = lib.file_runner(make_emf, emf, keep=("Record data",))


def make_wmf(debug, writer):
    return wemf.WMFFile(debug=debug, output_writer=writer)


def wmf_type(value):
    return f"0x{value:04x} ({named(WMF_TYPES, value):s})"


def words(value):
    return f"{value:d} ({2 * value:d} bytes)"


def map_mode(value):
    return f"0x{value:04x} ({named(MAP_MODES, value):s})"


def stretch_mode(value):
    return f"0x{value:04x} ({named(STRETCH_MODES, value):s})"


def raster_operation(value):
    return f"0x{value:08x} ({named(RASTER_OPERATIONS, value):s})"


WMF_DATA = {
    0x103: (("Map mode", 2, map_mode),),
    0x107: (("Stretch mode", 2, stretch_mode),),
    0x127: (("Number of saved device context", 2, "i"),),
    0x20b: (("Y coordinate", 2, "i"), ("X coordinate", 2, "i")),
    0x20c: (("Y coordinate", 2, "i"), ("X coordinate", 2, "i")),
    0xb41: (("Raster operation", 4, raster_operation),
            ("Source height", 2, "i"), ("Source width", 2, "i"),
            ("Source Y coordinate", 2, "i"), ("Source X coordinate", 2, "i"),
            ("Destination height", 2, "i"), ("Destination width", 2, "i"),
            ("Destination Y coordinate", 2, "i"),
            ("Destination X coordinate", 2, "i"))}


def wmf(out, data):
    offset = 0
    if len(data) >= 4 and data[:4] == b"\xd7\xcd\xc6\x9a":
        lib.layout(out, data, 0, (
            ("Signature", 4, "x8"), ("Resource handle", 2, "x4"),
            ("Bounding box", 8, "b"), ("Number of units per inch", 2, "d"),
            ("Unknown1", 4, "x8"), ("Checksum", 2, "x4")))
        offset = 22
    values = lib.layout(out, data, offset, (
        ("File type", 2, "x4"), ("Record size", 2, "d"),
        ("Format version", 2, "d"), ("File size lower", 2, "d"),
        ("File size upper", 2, "d"), ("Maximum number of object", 2, "d"),
        ("Largest record size", 4, "d"), ("Number of records", 2, "d")))
    if values[0] not in (1, 2) or values[1] != 9:
        raise lib.Reject("header")
    offset += 18
    while offset < len(data):
        offset += record(out, data, offset, WMF_DATA, (
            ("Record size", 4, words), ("Record type", 2, wmf_type)), 0, 2)


run_wmf = lib.file_runner(make_wmf, wmf, keep=("Record data",))


def run_record(env, base, holes, size=None, limits=()):
    """What is known of a record: its type, size, and where its data is."""
    data = lib.fill(env, base, holes, size, limits)
    kind = data[0]
    data = data[1:]
    if kind == 0:
        reader, start = make_emf(False, None), 4
    else:
        reader, start = make_wmf(False, None), 4

    def read(file_object):
        record = reader._ReadRecord(file_object, start)
        return (record.record_type, record.size, record.data_offset,
                record.data_size)

    def expected():
        if kind == 0:
            record_type, record_size = lib.uint(data, 4, 4), lib.uint(
                data, 8, 4)
            header = 8
        else:
            record_type, record_size = lib.uint(data, 8, 2), 2 * lib.uint(
                data, 4, 4)
            header = 6
        if record_size < header:
            raise lib.Reject("record size")
        return (record_type, record_size, start + header,
                record_size - header)

    want, _ = lib.reference(lambda out, data: expected(), data)
    env.check("record", lib.outcome(read, lib.MemFile(data)), want)


# Cases.


def le(value, size):
    return (value % (1 << (8 * size))).to_bytes(size, "little")


def emf_header(size=108, extra=b""):
    return (le(1, 4) + le(size, 4) + bytes(range(32)) + b" EMF"
            + le(0x10000, 4) + le(1000, 4) + le(4, 4) + le(3, 2) + le(0, 2)
            + le(len(extra) // 2, 4) + le(108 if extra else 0, 4)
            + bytes(40) + extra)


def emf_record(kind, data):
    return le(kind, 4) + le(8 + len(data), 4) + data


def wmf_placeable():
    return (b"\xd7\xcd\xc6\x9a" + le(0, 2) + bytes(range(8)) + le(96, 2)
            + le(0, 4) + le(0x5771, 2))


def wmf_header(kind=1, size=9):
    return (le(kind, 2) + le(size, 2) + le(0x300, 2) + le(50, 2) + le(0, 2)
            + le(4, 2) + le(20, 4) + le(0, 2))


def wmf_record(kind, data):
    return le(3 + len(data) // 2, 4) + le(kind, 2) + data


def _register():
    family = lib.Family(REGISTRY, "C29", "emf", run_emf)
    eof = emf_record(0xe, le(0, 4) + le(16, 4) + le(20, 4))
    base = (emf_header() + emf_record(0x18, le(0x123456, 4))
            + emf_record(0x25, le(0x80000007, 4)) + eof)
    family.fields(base, [(0, 4), (40, 4), (44, 4), (48, 4), (52, 4), (56, 2),
                         (58, 2), (60, 4), (64, 4)], name="head")
    family.holes("head-size-any", base, [(4, 4)], tier="thorough")
    family.holes("head-size", base, [(4, 4)],
                 limits=[(5, 0, 0), (6, 0, 0), (4, 80, 120)])
    family.holes("head-size-large", base, [(4, 4)],
                 limits=[(5, 1, 255)])
    family.holes("record-type", base, [(108, 4)],
                 limits=[(109, 0, 0), (110, 0, 0)])
    family.holes("record-type-large", base, [(108, 4)],
                 limits=[(109, 1, 255)])
    family.holes("record-size", base, [(112, 1)], limits=[(112, 0, 24)])
    family.holes("record-size-any", base, [(112, 4)], tier="thorough")
    family.holes("record-size-large", base, [(112, 4)],
                 limits=[(113, 1, 255)])
    family.holes("color", base, [(116, 4)])
    family.holes("object", base, [(128, 4)], limits=[(131, 128, 255)])
    family.holes("object-low", base, [(128, 4)], limits=[(131, 0, 127)])
    family.holes("end-type", base, [(132, 1)])
    family.holes("end-size", base, [(136, 1)])
    family.cuts(base, (0, 1, 87, 88, 107, 108, 109, 115, 116, 119, 120, 127,
                       131, 132, 140, 151))
    extra = "D\0e\0s\0\0\0".encode()
    base = emf_header(116, extra) + emf_record(0x18, le(7, 4)) + eof
    family.holes("described", base, [(108, 8)])
    family.holes("described-record", base, [(116, 1), (120, 1)],
                 limits=[(116, 23, 25), (120, 8, 20)])
    base = emf_header()[:88]
    base = base[:4] + le(88, 4) + base[8:] + emf_record(
        0x25, le(0x80000000, 4)) + eof
    family.holes("original", base, [(96, 4)])
    family.cuts(base, (107, 108), name="original-cut")
    base = emf_header() + emf_record(0x18, b"") + emf_record(0x25, b"ab")
    family.holes("short-data", base, [(112, 1), (120, 1)],
                 limits=[(112, 8, 10), (120, 8, 10)])
    family.holes("any-type-no-data", emf_header() + emf_record(2, b"") * 2,
                 [(108, 1), (116, 1)], tier="thorough")
    family.holes("one-type-no-data", emf_header() + emf_record(2, b"") * 2,
                 [(108, 1)])

    family = lib.Family(REGISTRY, "C29", "wmf", run_wmf)
    end = wmf_record(0, b"")
    for name, start in (("plain", b""), ("placeable", wmf_placeable())):
        at = len(start)
        base = start + wmf_header() + wmf_record(0x103, le(8, 2)) + end
        family.fields(base, [(at + offset, size) for offset, size in (
            (0, 2), (2, 2), (4, 2), (6, 2), (8, 2), (10, 2), (12, 4),
            (16, 2))], name=name)
        if start:
            family.holes(f"{name}-signature", base, [(0, 4)])
            family.fields(base, [(4, 2), (6, 4), (10, 4), (14, 2), (16, 4),
                                 (20, 2)], name=name)
        else:
            family.holes(f"{name}-start", base, [(0, 4)])
        family.cuts(base, [x for x in (
            0, 1, 2, 3, 4, 5, at + 17, at + 18, at + 19, at + 23, at + 24,
            at + 25, at + 26, at + 28, at + 31) if x < len(base)],
            name=f"{name}-cut")
    base = wmf_header() + wmf_record(0x107, le(3, 2)) + end
    family.holes("record-type", base, [(22, 2)], tier="thorough")
    for low, high in ((0, 1), (2, 3), (4, 6), (7, 9), (10, 255)):
        family.holes(f"record-type-{low}", base, [(22, 2)],
                     limits=[(23, low, high)])
    family.holes("record-size", base, [(18, 1)], limits=[(18, 0, 9)])
    family.holes("record-size-any", base, [(18, 4)], tier="thorough")
    family.holes("record-size-large", base, [(18, 4)],
                 limits=[(19, 1, 255)])
    family.holes("stretch-mode", base, [(24, 2)])
    base = wmf_header() + wmf_record(0x103, le(8, 2)) + end
    family.holes("map-mode", base, [(24, 2)])
    family.holes("end-type", base, [(30, 1)])
    base = wmf_header() + wmf_record(0x1e, b"") + wmf_record(
        0x127, le(-1, 2)) + end
    family.holes("restore", base, [(30, 2)])
    for kind in (0x20b, 0x20c):
        base = wmf_header() + wmf_record(kind, le(1, 2) + le(2, 2)) + end
        family.holes(f"window-{kind:x}", base, [(24, 4)])
    base = wmf_header() + wmf_record(0xb41, le(0xcc0020, 4) + b"".join(
        [le(x, 2) for x in range(1, 9)]) + b"dib!") + end
    family.holes("blit-operation", base, [(24, 4)], tier="thorough")
    for low in range(0, 256, 32):
        family.holes(f"blit-operation-{low}", base, [(24, 4)],
                     limits=[(26, low, low + 31), (27, 0, 0)])
    family.holes("blit-operation-high", base, [(24, 4)],
                 limits=[(27, 1, 255)])
    family.fields(base, [(28, 4), (32, 4), (36, 4), (40, 4)], name="blit")
    family.holes("blit-size", base, [(18, 1)], limits=[(18, 3, 16)])

    family = lib.Family(REGISTRY, "C29", "record", run_record)
    for kind, name in ((0, "emf"), (1, "wmf")):
        base = bytes([kind]) + bytes(range(4)) + bytes(12)
        family.holes(name, base, [(5, 8)])


_register()

REGISTRY.add_reuse()
