"""model of hierarchical data files (h5py) for the interpreter: groups, extensible datasets, open modes"""
from .common import *


class Data:
    def __init__(self, rows=None, value=None, tail=None):
        self.rows, self.value, self.tail = rows, value, tail     # rows: list of values (extensible) or value: fixed content


class Disk:
    def __init__(self):
        self.files = {}         # name -> {path tuple: "group" | Data}
        self.opened = []        # (name, mode)

    def install(self, I):
        I.lib = dict(I.lib)
        I.lib["h5py.File"] = lambda I, a, k: self.open(I, a, k)

    def sure(self, I):
        if I.guard != ONE:
            raise Unknown("file access under a condition")

    @staticmethod
    def text(v):
        if isinstance(v, Const) and isinstance(v.val, str):
            return v.val
        raise Unknown("name of a file or dataset")

    def open(self, I, a, k):
        self.sure(I)
        name = self.text(a[0] if a else k["name"])
        mode = self.text(a[1]) if len(a) > 1 else self.text(k["mode"]) if "mode" in k else "r"
        self.opened.append((name, mode))
        if mode == "w" or (mode in ("a", "w-", "x") and name not in self.files):
            self.files[name] = {(): "group"}
        elif mode in ("w-", "x") or (name not in self.files and mode in ("r", "r+")):
            raise Raised("FileNotFoundError/FileExistsError: %s mode %s" % (name, mode))
        f = self.files[name]
        if mode == "r":
            f = dict(f)
        return self.group(f, (), mode)

    def path(self, base, s):
        p = tuple(x for x in s.split("/") if x)
        return p if s.startswith("/") else base + p

    def group(self, f, base, mode):
        g = StubObj("h5:/" + "/".join(base), {})
        A = g.attrs

        def write():
            if mode == "r":
                raise Raised("OSError: file is open for reading")

        def mkgroup(p):
            for i in range(len(p) + 1):
                if f.get(p[:i], "group") != "group":
                    raise Raised("ValueError: %s is a dataset" % "/".join(p[:i]))
                f.setdefault(p[:i], "group")

        def create_group(I, a, k):
            self.sure(I)
            write()
            p = self.path(base, self.text(a[0] if a else k["name"]))
            if p in f:
                raise Raised("ValueError: group /%s already exists" % "/".join(p))
            mkgroup(p)
            return self.group(f, p, mode)

        def require_group(I, a, k):
            self.sure(I)
            write()
            p = self.path(base, self.text(a[0] if a else k["name"]))
            mkgroup(p)
            return self.group(f, p, mode)

        def create_dataset(I, a, k):
            self.sure(I)
            write()
            p = self.path(base, self.text(a[0] if a else k["name"]))
            if p in f:
                raise Raised("ValueError: dataset /%s already exists" % "/".join(p))
            mkgroup(p[:-1])
            shape = a[1] if len(a) > 1 else k.get("shape")
            dv = k.get("data", a[3] if len(a) > 3 else None)
            if shape is not None and L.is_none(shape):
                shape = None
            if dv is not None:
                val = I.num_of(dv)
                if "maxshape" in k and val.axes is not None and val.rank and val.axis_size(0).int_value() is not None:
                    f[p] = Data(rows=[val.index_axis(0, const(i)) for i in range(val.axis_size(0).int_value())])
                else:
                    f[p] = Data(value=val)
            else:
                sh = L.shape_arg(I, shape)
                n = sh[0].int_value() if sh else None
                if n is None:
                    raise Unknown("extent of a dataset")
                ms = k.get("maxshape")
                free = isinstance(ms, Tup) and ms.items and isinstance(ms.items[0], Const) and ms.items[0].val is None
                if not free and "maxshape" in k:
                    raise Unknown("maximal shape of a dataset")
                f[p] = Data(rows=[None] * n, tail=sh[1:])
                f[p].free = free
            return self.dataset(f, p, mode)

        def get(I, a, k):
            p = self.path(base, self.text(a[0]))
            if p not in f:
                raise Raised("KeyError: /%s does not exist" % "/".join(p))
            return self.group(f, p, mode) if f[p] == "group" else self.dataset(f, p, mode)

        def has(I, a, k):
            return Const(self.path(base, self.text(a[0])) in f)

        def delete(I, a, k):
            self.sure(I)
            p = self.path(base, self.text(a[0]))
            for q in list(f):
                if q[:len(p)] == p:
                    del f[q]
            return NONE
        nop = PyFn(lambda I, a, k: NONE, "close")
        A.update({"create_group": PyFn(create_group, "create_group"), "require_group": PyFn(require_group, "require_group"),
                  "create_dataset": PyFn(create_dataset, "create_dataset"), "__getitem__": PyFn(get, "getitem"), "__contains__": PyFn(has, "contains"),
                  "__delitem__": PyFn(delete, "delitem"), "flush": nop, "close": nop,
                  "keys": PyFn(lambda I, a, k: I.list([Const(q[-1]) for q in f if len(q) == len(base) + 1 and q[:-1] == base]), "keys"),
                  "name": Const("/" + "/".join(base))})
        return g

    def dataset(self, f, p, mode):
        d = f[p]
        name = "/" + "/".join(p)
        o = StubObj("h5:" + name, {})

        def index(I, k):
            i = I.int_of(k)
            if i is None:
                raise Unknown("row of a dataset")
            if not -len(d.rows) <= i < len(d.rows):
                raise Raised("IndexError: row %d of %s" % (i, name))
            return i

        def whole(I):
            if d.value is not None:
                return d.value
            rows = [num(0) if r is None else r for r in d.rows]
            return L.T.stack_literal(rows) if rows else Tensor([(var(Dim.of_const(0)),)], ZERO)

        def get(I, a, k):
            if d.value is not None or not isinstance(a[0], Tensor):
                return I.getitem(whole(I), a[0]) if not (isinstance(a[0], Tup) and not a[0].items) else whole(I)
            r = d.rows[index(I, a[0])]
            return num(0) if r is None else r

        def put(I, a, k):
            self.sure(I)
            if mode == "r":
                raise Raised("OSError: file is open for reading")
            if d.value is not None:
                raise Unknown("write into a fixed dataset")
            key, v = a
            if isinstance(key, Tup) and key.items:
                rest = key.items[1:]
                if all(isinstance(x, SliceV) or (isinstance(x, Const) and x.val is Ellipsis) for x in rest):
                    key = key.items[0]
            d.rows[index(I, key)] = I.num_of(v)
            return NONE

        def resize(I, a, k):
            self.sure(I)
            if not getattr(d, "free", True):
                raise Raised("TypeError: %s cannot be resized" % name)
            s = a[0] if a else k.get("size")
            ax = a[1] if len(a) > 1 else k.get("axis")
            if ax is not None and not L.is_none(ax):
                if I.int_of(ax) != 0:
                    raise Unknown("resized axis")
                n = I.int_of(s)
            else:
                sh = L.shape_arg(I, s)
                n = sh[0].int_value()
            if n is None:
                raise Unknown("extent of a dataset: %r" % (s,))
            d.rows = d.rows[:n] + [None] * (n - len(d.rows))
            return NONE

        def shape():
            if d.value is not None:
                return Tup([L.scalar(s) for s in d.value.shape()])
            return Tup([num(len(d.rows))] + [L.scalar(s) for s in (d.tail or [])])
        o.attrs.update({"__getitem__": PyFn(get, "getitem"), "__setitem__": PyFn(put, "setitem"), "resize": PyFn(resize, "resize"),
                        "__len__": PyFn(lambda I, a, k: shape().items[0], "len"), "__array__": PyFn(lambda I, a, k: whole(I), "array"), "shape": shape(),
                        "size": num(0), "name": Const(name), "dtype": Const("f8")})
        del o.attrs["size"]
        return o
