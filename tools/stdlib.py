# Run under Jython: writes pyan/stdlib27.json, the names that standard modules and built-in types offer.
import __builtin__, json, sys, types
mods = "os os.path sys json xml xml.etree xml.etree.ElementTree xml.etree.cElementTree cStringIO StringIO time uuid urllib urllib2 tempfile tarfile collections hashlib md5 getopt difflib re functools itertools operator copy string math types bisect base64".split()
res = {"mods": {}, "types": {}, "builtins": sorted(dir(__builtin__)), "any": []}
names = set()
for m in mods:
    try:
        __import__(m)
    except ImportError:
        continue
    o = sys.modules[m]
    res["mods"][m] = sorted(str(x) for x in dir(o))
    for x in dir(o):
        c = getattr(o, x, None)
        if isinstance(c, (type, types.ClassType)):
            names |= set(str(y) for y in dir(c))
import StringIO, cStringIO
for o in (StringIO.StringIO(), cStringIO.StringIO(), cStringIO.StringIO("x")):
    names |= set(str(y) for y in dir(o))
names |= set("data name attrib text tag tail".split())
for n in res["builtins"]:
    c = getattr(__builtin__, n)
    if isinstance(c, type):
        res["types"][n] = sorted(str(y) for y in dir(c))
        names |= set(res["types"][n])
names |= set(dir(lambda: 0)) | set(dir(res)) | set(dir(open)) | set(dir((x for x in [])))
import xml.etree.ElementTree as E
for o in (E.Element("x"), E.ElementTree(E.Element("x"))):
    names |= set(str(y) for y in dir(o)) | set(o.__dict__)
import os, time, uuid
import hashlib
for o in (hashlib.md5(), os.stat("/"), time.localtime(), uuid.uuid4(), sys.exc_info):
    names |= set(str(y) for y in dir(o))
res["any"] = sorted(str(x) for x in names)
json.dump(res, open(sys.argv[1], "w"), sort_keys=True, indent=0)
