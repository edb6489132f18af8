"""Minimal reader of a serialized FileDescriptorSet (protoc --descriptor_set_out)."""


def _varint(b, i):
    r = s = 0
    while True:
        c = b[i]
        i += 1
        r |= (c & 0x7F) << s
        if not c & 0x80:
            return r, i
        s += 7


def fields(b):
    i = 0
    while i < len(b):
        tag, i = _varint(b, i)
        wt = tag & 7
        if wt == 0:
            v, i = _varint(b, i)
        elif wt == 1:
            v, i = b[i:i + 8], i + 8
        elif wt == 2:
            n, i = _varint(b, i)
            v, i = b[i:i + n], i + n
        elif wt == 5:
            v, i = b[i:i + 4], i + 4
        else:
            raise ValueError("wire type")
        yield tag >> 3, v


TYPES = {1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool",
         9: "string", 10: "group", 11: "message", 12: "bytes", 13: "uint32", 14: "enum", 15: "sfixed32",
         16: "sfixed64", 17: "sint32", 18: "sint64"}


class Field:
    def __init__(self):
        self.name = None
        self.number = None
        self.repeated = False
        self.type = None
        self.type_name = None
        self.oneof = None
        self.proto3_optional = False


class Message:
    def __init__(self, name):
        self.name = name
        self.fields = {}
        self.oneofs = []


class Enum:
    def __init__(self, name):
        self.name = name
        self.values = []
        self.alias = False


class Schema:
    def __init__(self, path):
        self.messages = {}
        self.enums = {}
        self.files = {}
        with open(path, "rb") as f:
            b = f.read()
        for n, v in fields(b):
            if n == 1:
                self._file(v)

    def _file(self, b):
        pkg = name = ""
        syntax = "proto2"
        msgs, enums = [], []
        for n, v in fields(b):
            if n == 1:
                name = v.decode()
            elif n == 2:
                pkg = v.decode()
            elif n == 4:
                msgs.append(v)
            elif n == 5:
                enums.append(v)
            elif n == 12:
                syntax = v.decode()
        self.files[name] = (pkg, syntax)
        for m in msgs:
            self._msg(m, "." + pkg)
        for e in enums:
            self._enum(e, "." + pkg)

    def _msg(self, b, scope):
        fs, nested, enums, oneofs = [], [], [], []
        name = ""
        for n, v in fields(b):
            if n == 1:
                name = v.decode()
            elif n == 2:
                fs.append(v)
            elif n == 3:
                nested.append(v)
            elif n == 4:
                enums.append(v)
            elif n == 8:
                for k, w in fields(v):
                    if k == 1:
                        oneofs.append(w.decode())
        m = Message(scope + "." + name)
        m.oneofs = oneofs
        for fb in fs:
            f = Field()
            for n, v in fields(fb):
                if n == 1:
                    f.name = v.decode()
                elif n == 3:
                    f.number = v
                elif n == 4:
                    f.repeated = v == 3
                elif n == 5:
                    f.type = TYPES[v]
                elif n == 6:
                    f.type_name = v.decode()
                elif n == 9:
                    f.oneof = oneofs[v]
                elif n == 17:
                    f.proto3_optional = bool(v)
            m.fields[f.name] = f
        self.messages[m.name] = m
        for x in nested:
            self._msg(x, m.name)
        for x in enums:
            self._enum(x, m.name)

    def _enum(self, b, scope):
        e = None
        vals = []
        for n, v in fields(b):
            if n == 1:
                e = Enum(scope + "." + v.decode())
            elif n == 2:
                nm = num = None
                num = 0
                for k, w in fields(v):
                    if k == 1:
                        nm = w.decode()
                    elif k == 2:
                        num = w if w < (1 << 63) else w - (1 << 64)
                vals.append((nm, num))
        e.values = vals
        self.enums[e.name] = e

    def cxx(self):
        """C++ qualified class name -> Message."""
        r = {}
        for n, m in self.messages.items():
            r[self.cxx_name(n)] = m
        return r

    def cxx_name(self, n):
        # .Pkg.A.B -> Pkg::A_B ; the package is the longest known package prefix
        best = ""
        for pkg, _ in self.files.values():
            p = "." + pkg
            if (n + ".").startswith(p + ".") and len(p) > len(best):
                best = p
        rest = n[len(best) + 1:]
        return best[1:].replace(".", "::") + "::" + rest.replace(".", "_")
