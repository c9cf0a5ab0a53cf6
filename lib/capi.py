"""ctypes access to the C interface of the library inside the extension module."""
import ctypes as C

import pointless

lib = C.CDLL(pointless.__file__)
pylib = C.PyDLL(pointless.__file__)

u8, u16, u32, u64 = C.c_uint8, C.c_uint16, C.c_uint32, C.c_uint64
i8, i16, i32, i64 = C.c_int8, C.c_int16, C.c_int32, C.c_int64
P = C.POINTER

SIZES = {}
for _n in ('pointless', 'create', 'hash_iter', 'eval'):
    _f = getattr(lib, 'vp_sizeof_' + _n)
    _f.restype = C.c_size_t
    SIZES[_n] = _f()


class Value(C.Structure):
    _pack_ = 1
    _fields_ = [('type', u32), ('data', u32)]

    def tup(self):
        return (self.type, self.data)


class CValue(C.Structure):
    _pack_ = 1
    _fields_ = [('type', u32), ('data', u64)]


def fn(name, res, *args):
    f = getattr(lib, name)
    f.restype = res
    f.argtypes = list(args)
    return f


VP = C.c_void_p
PV = P(Value)
ERR = P(C.c_char_p)

open_f = fn('pointless_open_f', C.c_int, VP, C.c_char_p, ERR)
open_b = fn('pointless_open_b', C.c_int, VP, VP, C.c_size_t, ERR)
open_f_skip = fn('pointless_open_f_skip_validate', C.c_int, VP, C.c_char_p, ERR)
open_b_skip = fn('pointless_open_b_skip_validate', C.c_int, VP, VP, C.c_size_t, ERR)
close = fn('pointless_close', None, VP)
root = fn('pointless_root', PV, VP)
recreate_64 = fn('pointless_recreate_64', C.c_int, C.c_char_p, C.c_char_p, ERR)

mem_live = fn('vp_mem_live', C.c_long)
mem_allocs = fn('vp_mem_allocs', C.c_long)
mem_failed = fn('vp_mem_failed', C.c_long)
mem_fail = fn('vp_mem_fail', None, C.c_long, C.c_int)
io_arm = fn('vp_io_arm', None, C.c_int, C.c_long, C.c_int)
io_disarm = fn('vp_io_disarm', None)
io_count = fn('vp_io_count', C.c_long)
io_log = fn('vp_io_log', C.c_char_p)

IO_NONE, IO_FAIL, IO_EXIT = 0, 1, 2


class Error(Exception):
    pass


class Image:
    """An image opened through the C interface."""

    def __init__(self, data=None, fname=None, validate=True):
        self.p = C.create_string_buffer(SIZES['pointless'])
        err = C.c_char_p()
        self.buf = None
        if fname is not None:
            ok = (open_f if validate else open_f_skip)(self.p, fname.encode('utf-8'), C.byref(err))
        else:
            # the bytes stay exactly as long as the image, and aligned
            self.buf = C.create_string_buffer(bytes(data), max(1, len(data)))
            ok = (open_b if validate else open_b_skip)(self.p, self.buf, len(data), C.byref(err))
        if not ok:
            self.p = None
            raise Error((err.value or b'(no error text)').decode('latin-1'))

    def root(self):
        return root(self.p)

    def close(self):
        if self.p is not None:
            close(self.p)
            self.p = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        if getattr(self, 'p', None) is not None:
            self.close()
