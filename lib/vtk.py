"""an independent reader of the VTK files (image data and unstructured grids, serial and parallel, text and appended raw)"""
import re, os
import numpy as np

T = {"Float64": np.float64, "Float32": np.float32, "Int64": np.int64, "UInt8": np.uint8, "UInt64": np.uint64, "Int32": np.int32}


def attrs(tag):
    return dict(re.findall(r'([A-Za-z_]+)="([^"]*)"', tag))


def ints(s):
    return [int(x) for x in s.split()]


def read(fn):
    """dict(ok, why, kind, whole, origin, spacing, piece, arrays, fmt, cell, fields, ...); every declared size is checked against the data"""
    r = dict(ok=False, why="", file=os.path.basename(fn), arrays={}, order=[], cell=[], fmt={}, fields={}, pieces=[], whole=None, origin=None, spacing=None,
             npoints=-1, ncells=-1, piece=None)
    try:
        raw = open(fn, "rb").read()
    except OSError as e:
        r["why"] = str(e)
        return r
    k = raw.find(b"<AppendedData")
    head = (raw if k < 0 else raw[:k]).decode("latin1")
    head = re.sub(r"<!--.*?-->", "", head, flags=re.S)
    app = None
    if k >= 0:
        t = raw.index(b">", k)
        if attrs(raw[k:t].decode("latin1")).get("encoding") != "raw":
            r["why"] = "encoding"
            return r
        u = raw.index(b"_", t)
        if raw[t + 1:u].strip():
            r["why"] = "text before the data"
            return r
        app = raw[u + 1:]
    # well formed: tags close in order
    stack = []
    tags = re.findall(r"<(/?)([A-Za-z]+)([^<>]*?)(/?)>", head)
    for close, name, rest, selfc in tags:
        if close:
            if not stack or stack.pop() != name:
                r["why"] = "tag %s closed out of order" % name
                return r
        elif not selfc:
            stack.append(name)
    if (app is None and stack) or (app is not None and stack not in (["VTKFile"],)):
        # some writers close the grid before the appended data, all leave VTKFile open
        r["why"] = "tags left open: %s" % stack
        return r
    m = re.search(r"<VTKFile ([^>]*)>", head)
    if not m:
        r["why"] = "no VTKFile"
        return r
    a = attrs(m.group(1))
    r["kind"] = a.get("type")
    if a.get("byte_order") != "LittleEndian" or a.get("header_type") != "UInt64":
        r["why"] = "byte order or header type"
        return r
    m = re.search(r"<P?ImageData ([^>]*)>", head)
    if m:
        a = attrs(m.group(1))
        r["whole"] = ints(a["WholeExtent"])
        r["origin"] = [float(x) for x in a["Origin"].split()]
        r["spacing"] = [float(x) for x in a["Spacing"].split()]
    for m in re.finditer(r"<Piece ([^>]*)/?>", head):
        a = attrs(m.group(1))
        r["pieces"].append(dict(extent=ints(a["Extent"]) if "Extent" in a else None, source=a.get("Source")))
        r["npoints"], r["ncells"] = int(a.get("NumberOfPoints", -1)), int(a.get("NumberOfCells", -1))
    if r["pieces"] and not r["pieces"][0]["source"]:
        r["piece"] = r["pieces"][0]["extent"]
    for m in re.finditer(r"<PDataArray ([^>]*?)/?>", head):
        a = attrs(m.group(1))
        r["order"].append(a.get("Name"))
        r["fmt"][a.get("Name")] = a.get("type")
    at, end = 0, 0
    sect = [(m.start(), m.group(1)) for m in re.finditer(r"<(CellData|PointData|Points|Cells|FieldData|PCellData)[ >]", head)]
    for m in re.finditer(r"<DataArray ([^>]*?)(/?)>", head):
        a = attrs(m.group(1))
        n = a["Name"]
        s = [x for p, x in sect if p < m.start()]
        s = s[-1] if s else ""
        ty = T.get(a["type"])
        body = ""
        if not m.group(2):
            e = head.find("</DataArray>", m.end())
            body = head[m.end():e]
        if a["format"] == "ascii":
            v = np.array(body.split(), dtype=np.float64)
            r["text"] = True
            if s != "FieldData":
                r["fmt"][n] = a["type"]
        else:
            if app is None:
                r["why"] = "appended array without data"
                return r
            if body.strip():
                r["why"] = "text in an appended array"
                return r
            off = int(a["offset"])
            if off != end:
                r["why"] = "offset of %s is %d, data so far %d" % (n, off, end)
                return r
            nb = int(np.frombuffer(app, np.uint64, 1, off)[0]) if off + 8 <= len(app) else -1
            if nb < 0 or off + 8 + nb > len(app) or nb % np.dtype(ty).itemsize:
                r["why"] = "byte count of %s: %d" % (n, nb)
                return r
            v = np.frombuffer(app, ty, nb // np.dtype(ty).itemsize, off + 8)
            end = off + 8 + nb
            r["fmt"][n] = a["type"]
        if s == "FieldData":
            r["fields"][n] = float(v[0]) if len(v) == 1 else None
            continue
        if n in r["arrays"]:
            r["why"] = "array %s twice" % n
            return r
        r["arrays"][n] = v
        if s == "CellData":
            r["cell"].append(n)
    if app is not None and app[end:].split() != [b"</AppendedData>", b"</VTKFile>"]:
        r["why"] = "%d bytes after the data" % (len(app) - end)
        return r
    r["ok"] = True
    return r
