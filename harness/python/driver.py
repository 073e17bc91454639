"""Workload and monitor of the Python module: histories of calls on images against a model; function results against the
C++ functions called directly. Takes the options of the other workloads."""
import argparse
import ctypes
import gc
import hashlib
import json
import mmap
import os
import random
import sys
import threading
import time

ap = argparse.ArgumentParser()
ap.add_argument('--dir', required=True)
for o, d in (('seed', 1), ('count', 100), ('shard', 0), ('shards', 1), ('from', 0), ('only', -1)):
    ap.add_argument('--' + o, type=int, default=d, dest=o if o != 'from' else 'first')
ap.add_argument('--secs', type=float, default=1e9)
for o in ('tier', 'mode', 'out', 'crumb', 'arg'):
    ap.add_argument('--' + o, default='')
opt = ap.parse_args()
sys.path.insert(0, opt.dir)
sys.dont_write_bytecode = True
import penguinV as pv  # noqa: E402

ref = ctypes.CDLL(os.path.join(opt.dir, 'libref.so'))
probe = ctypes.CDLL(os.path.join(opt.dir, '_penguinV.so'))
probe.vf_live_blocks.restype = ctypes.c_longlong
probe.vf_live_bytes.restype = ctypes.c_longlong
U32 = ctypes.c_uint32


class Desc(ctypes.Structure):
    _fields_ = [('data', ctypes.POINTER(ctypes.c_uint8)), ('width', U32), ('height', U32), ('rowSize', U32), ('colors', U32), ('alignment', U32)]


ref.ref_call.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.POINTER(Desc), ctypes.POINTER(Desc), ctypes.c_uint64, ctypes.POINTER(U32), U32, ctypes.POINTER(U32),
                         ctypes.POINTER(U32), ctypes.c_char_p]
ROOM = 1 << 20


class Model:
    def __init__(self, w=0, h=0, cc=1, al=1):
        self.w, self.h, self.cc, self.al = w, h, cc, al
        if w == 0 or h == 0:
            self.w = self.h = 0
        self.data = bytearray(self.rs * self.h)

    @property
    def rs(self):
        return 0 if self.w == 0 else (self.w * self.cc + self.al - 1) // self.al * self.al

    def clone(self):
        m = Model()
        m.w, m.h, m.cc, m.al, m.data = self.w, self.h, self.cc, self.al, bytearray(self.data)
        return m

    def clear(self):
        self.w = self.h = 0
        self.data = bytearray()

    def rows(self, data=None):
        d = self.data if data is None else data
        n = self.w * self.cc
        if n == self.rs:
            return bytes(d)
        return b''.join(bytes(d[y * self.rs:y * self.rs + n]) for y in range(self.h))

    def desc(self, room=0):
        n = max(room, len(self.data), 1)
        buf = (ctypes.c_uint8 * n)()
        ctypes.memmove(buf, bytes(self.data), len(self.data))
        d = Desc(ctypes.cast(buf, ctypes.POINTER(ctypes.c_uint8)), self.w, self.h, self.rs, self.cc, self.al)
        return d, buf

    def text(self):
        return '%dx%dx%d al %d' % (self.w, self.h, self.cc, self.al)


def from_desc(d):
    m = Model(d.width, d.height, d.colors, d.alignment)
    m.data = bytearray(ctypes.string_at(d.data, m.rs * m.h))
    return m


def raw(im, m):
    """the bytes of an image, read past the module"""
    return ctypes.string_at(int(im.data()), m.rs * m.h) if m.h else b''


class Bad(Exception):
    pass


def compare(im, m, what, whole=False):
    got = (im.width(), im.height(), im.rowSize(), im.colorCount(), im.alignment(), im.empty(), im.type())
    must = (m.w, m.h, m.rs, m.cc, m.al, m.h == 0, 0)
    if got != must:
        raise Bad('%s: width, height, row size, colours, alignment, empty, type are %r, must be %r' % (what, got, must))
    if m.h:
        b = raw(im, m)
        if whole and b != bytes(m.data) or m.rows(b) != m.rows():
            raise Bad('%s: contents of %s differ' % (what, m.text()))
        m.data = bytearray(b)  # padding as it is


class Case:
    def __init__(self, r):
        self.r = r
        self.im, self.mo = [], []
        self.hist = []
        self.counts = {}
        self.calls = 0

    def hit(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def size(self, far=False):
        r = self.r
        k = r.random() if far else 1
        if k < 0.02:  # positions of more than 16 bits
            return (r.randint(65530, 66200), r.randint(1, 3)) if k < 0.01 else (r.randint(1, 3), r.randint(65530, 66200))
        return (r.randint(1, 300), r.randint(1, 6)) if r.random() < 0.2 else (r.randint(1, 40), r.randint(1, 30))

    def paint(self, im, m):
        kind = self.r.random()
        n = m.rs * m.h
        if kind < 0.7:
            m.data = bytearray(self.r.randbytes(n))
        elif kind < 0.85:
            vals = self.r.randbytes(2)
            m.data = bytearray(vals[i] for i in (b & 1 for b in self.r.randbytes(n)))
        else:
            m.data = bytearray(bytes([self.r.randrange(256)]) * n)
        if n:
            ctypes.memmove(int(im.data()), bytes(m.data), n)

    def add(self, im, m):
        self.im.append(im)
        self.mo.append(m)

    def expect_refusal(self, what, f, kinds=Exception):
        try:
            f()
        except kinds:
            self.hit('refusals')
            return
        raise Bad('%s was not refused' % what)

    def check(self, whole=False):
        for k, (im, m) in enumerate(zip(self.im, self.mo)):
            compare(im, m, 'image %d' % k, whole)

    # ---- objects
    def new(self):
        r = self.r
        w, h = self.size(True)
        n = r.randint(0, 4)
        cc, al = r.choice([1, 1, 1, 3, 4, 2]), r.choice([1, 1, 2, 3, 4, 8, 16, 32, 255])
        if h > 60000:
            al = r.choice([1, 2, 3, 4])
        a = (w, h, cc, al)[:n]
        im = pv.Image(*a)
        m = Model(*(a + (0, 0, 1, 1)[n:])) if n != 1 else Model()
        self.hist.append('new%d%r' % (len(self.im), a))
        compare(im, Model(*((m.w, m.h, m.cc, m.al))) if m.h == 0 else self.painted(im, m), 'new')
        self.add(im, m)

    def painted(self, im, m):
        self.paint(im, m)
        return m

    def pick(self):
        return self.r.randrange(len(self.im))

    def step_object(self):
        r = self.r
        a, b = self.pick(), self.pick()
        A, B, ma, mb = self.im[a], self.im[b], self.mo[a], self.mo[b]
        k = r.randrange(15)
        if k == 0:
            self.new()
        elif k == 1:
            self.hist.append('Image(%d)' % a)
            self.add(pv.Image(A), ma.clone())
        elif k == 2:
            w, h = self.size()
            self.hist.append('%d.resize(%d,%d)' % (a, w, h))
            A.resize(w, h)
            if (w, h) != (ma.w, ma.h):
                n = Model(w, h, ma.cc, ma.al)
                self.mo[a] = n
                self.paint(A, n)
        elif k == 3:
            self.hist.append('%d.clear' % a)
            A.clear()
            ma.clear()
        elif k == 4:
            c = r.choice([0, 1, 2, 3, 4, ma.cc])
            self.hist.append('%d.setColorCount(%d)' % (a, c))
            A.setColorCount(c)
            if c and c != ma.cc:
                ma.clear()
                ma.cc = c
        elif k == 5:
            c = r.choice([0, 1, 2, 4, 255, ma.al])
            self.hist.append('%d.setAlignment(%d)' % (a, c))
            A.setAlignment(c)
            if c and c != ma.al:
                ma.clear()
                ma.al = c
        elif k == 6:
            v = r.randrange(256)
            self.hist.append('%d.fill(%d)' % (a, v))
            A.fill(v)
            ma.data = bytearray([v]) * len(ma.data)
        elif k == 7:
            self.hist.append('%d.swap(%d)' % (a, b))
            A.swap(B)
            self.mo[a], self.mo[b] = mb, ma
        elif k == 8:
            self.hist.append('%d.copy(%d)' % (a, b))
            A.copy(B)
            self.mo[a] = mb.clone()
        elif k == 9:
            n = ma.w * ma.cc
            w, h, cc, al = r.choice([(ma.h, ma.w, ma.cc, ma.al), (n, ma.h, 1, ma.al), (ma.rs, ma.h, 1, 1), (ma.w + 1, ma.h, ma.cc, ma.al), (ma.w, ma.h, 0, 1), (1, ma.rs * ma.h, 1, 1),
                                     (ma.w, ma.h, ma.cc, 0)])
            m = Model()
            rs = (w * cc + al - 1) // al * al if al else 0
            can = cc > 0 and al > 0 and rs * h == ma.rs * ma.h
            self.hist.append('%d.mutate(%d,%d,%d,%d)' % (a, w, h, cc, al))
            if A.mutate(w, h, cc, al) != can:
                raise Bad('mutate returned %r' % (not can))
            if can and ma.h:
                m.w, m.h, m.cc, m.al, m.data = w, h, cc, al, ma.data
                self.mo[a] = m
                compare(A, m, 'mutated', True)
            elif can:
                m.w, m.h, m.cc, m.al = 0, 0, cc, al
                self.mo[a] = m
                if (A.width(), A.height()) != (w, h):
                    raise Bad('mutated empty image')
                A.clear()
        elif k == 10:
            w, h = self.size()
            n = r.randint(0, 4)
            g = (w, h, r.choice([1, 3, 4]), r.choice([1, 4, 16]))[:n]
            self.hist.append('%d.generate%r' % (a, g))
            im = A.generate(*g)
            m = Model(*(g + (0, 0, 1, 1)[n:])) if n != 1 else Model()
            self.paint(im, m)
            self.add(im, m)
        elif k == 11 and len(self.im) > 2:
            self.hist.append('del %d' % a)
            del self.im[a], self.mo[a]
            del A, B
            if r.random() < 0.3:
                gc.collect()
        elif k == 12:  # another reference to the same image, the first one ends
            self.hist.append('alias %d' % a)
            alias = [A]
            self.im[a] = None
            del A
            loop = {'image': alias}
            loop['self'] = loop
            self.im[a] = loop['image'].pop()
        elif k == 13 and opt.arg != 'asan':
            self.impossible(a)
        elif k == 14:
            self.hist.append('wrong arguments for %d' % a)
            w = [lambda: A.fill(r.choice([256, -1, 'a', None, 1.5, 1 << 40])), lambda: A.resize(-1, 3), lambda: A.resize(1 << 32, 3), lambda: A.resize('3', 4), lambda: A.copy(None),
                 lambda: A.copy(3), lambda: pv.Image(-1, 2), lambda: pv.Image(1, 2, 256), lambda: pv.Image('x'), lambda: A.setColorCount(-1), lambda: A.setAlignment(300),
                 lambda: A.swap(None), lambda: A.resize(3), lambda: A.mutate(1, 2), lambda: pv.GetThreshold(A), lambda: pv.Histogram(None), lambda: pv.Threshold(A), lambda: pv.Threshold(A, 256),
                 lambda: pv.Threshold(A, -1), lambda: pv.ConvertToGrayScale(3), lambda: pv.GetThreshold([-1] * 256), lambda: pv.GetThreshold([1 << 33] * 256), lambda: pv.GetThreshold('abc'),
                 lambda: pv.Load(3), lambda: pv.Save('x.bmp', None), lambda: pv.Load('x.bmp', None), lambda: A.assign(None, 1, 1, 1, 1), lambda: pv.vectorUInt32(-1)]
            k = r.randrange(len(w))
            self.expect_refusal('wrong arguments %d' % k, w[k], (TypeError, ValueError, OverflowError, RuntimeError, MemoryError, IndexError))

    def impossible(self, a):
        """memory which is not available"""
        A = self.im[a]
        self.hist.append('too big %d' % a)
        big = self.r.choice([(1 << 31, 1 << 31), ((1 << 32) - 1, (1 << 32) - 1), (1 << 20, 1 << 20)])
        self.expect_refusal('an image of %dx%d' % big, lambda: pv.Image(*big))
        self.expect_refusal('generating %dx%d' % big, lambda: A.generate(*big))
        try:
            A.resize(*big)
        except Exception:
            pass
        else:
            raise Bad('resize to %dx%d was not refused' % big)
        if A.empty():  # or as it was
            self.mo[a].clear()

    # ---- functions
    def region(self, m, valid=True):
        r = self.r
        w = r.randint(1, max(m.w, 1))
        h = r.randint(1, max(m.h, 1))
        if max(m.w, m.h) > 60000 and r.random() < 0.7:
            w, h = r.randint(1, min(m.w, 40)), r.randint(1, min(m.h, 40))
            return m.w - w - r.randint(0, min(m.w - w, 3)), m.h - h - r.randint(0, min(m.h - h, 3)), w, h
        return r.randint(0, max(m.w - w, 0)), r.randint(0, max(m.h - h, 0)), w, h

    def reference(self, op, form, inp, out, reg=(0,) * 6, value=0, values=None, path=b''):
        i = inp.desc() if inp is not None else None
        o = (out if out is not None else Model()).desc(ROOM)
        v = (U32 * 2048)(*(values or []))
        n = U32(len(values or []))
        rc = ref.ref_call(op, form, ctypes.byref(i[0]) if i else None, ctypes.byref(o[0]), ROOM, (U32 * 6)(*reg), value, v, ctypes.byref(n), path)
        if rc == 3:
            raise RuntimeError('monitor: reference failed for %d %d (%d values)' % (op, form, n.value))
        return rc, from_desc(o[0]) if rc == 0 else None, list(v[:n.value])

    def call(self, what, f, rc):
        """f() must be accepted exactly when the C++ function accepts"""
        self.calls += 1
        try:
            res = f()
        except Exception as e:
            if rc == 0:
                raise Bad('%s was refused (%r), the C++ function is executed' % (what, e)) from None
            if not isinstance(e, RuntimeError) and type(e).__name__ != 'penguinVException' and not isinstance(e, (MemoryError, OSError, ValueError)):
                raise Bad('%s ended in %r' % (what, e)) from None
            self.hit('refusals')
            return False, None
        if rc != 0:
            raise Bad('%s was executed, the C++ function refuses' % what)
        return True, res

    def misuse(self, what, f, args):
        """the same call with one argument of a wrong type or out of range, with one more or one less"""
        r = self.r
        k = r.randrange(len(args) + 1)
        if k == len(args):
            bad = args + (r.choice([None, 'x', 1 << 40, -1]),)
        else:
            a = args[k]
            if isinstance(a, int):
                last = f is pv.Threshold and k == len(args) - 1
                v = r.choice([-1, 1 << 32, (1 << 32) + a, 1 << 64, -(1 << 31), 0.5, 'x', None, [1]] + ([256, 256 + a, 511, 65536 + a] if last else []))
            elif isinstance(a, str):
                v = r.choice([3, None, [a], 0.5])
            else:
                v = r.choice([None, 3, 'x', [1, 2]] if not isinstance(a, pv.vectorUInt32) else [None, 'x', 0.5])
            bad = args[:k] + (v,) + args[k + 1:]
        text = '%s with %r as argument %d' % (what, bad[k] if k < len(args) else bad[-1:], k)
        self.hist.append(text)
        self.expect_refusal(text, lambda: f(*bad))
        self.hit('wrong arguments')

    def step_function(self):
        r = self.r
        a, b = self.pick(), self.pick()
        A, ma = self.im[a], self.mo[a]
        op = r.randint(1, 6)
        form = r.randint(1, 4)
        valid = r.random() < 0.85
        if op in (1, 2):
            if op == 2 and valid and ma.cc != 1 or (valid and (ma.cc not in (1, 3, 4) or ma.h == 0)):
                w, h = self.size(True)
                ma = Model(w, h, 1 if op == 2 else r.choice([1, 3, 3, 4]), r.choice([1, 4, 7]))
                A = pv.Image(ma.w, ma.h, ma.cc, ma.al)
                self.paint(A, ma)
                self.im[a], self.mo[a] = A, ma
            f, name = (pv.ConvertToGrayScale, 'ConvertToGrayScale') if op == 1 else (pv.Threshold, 'Threshold')
            v = (r.randrange(256),) if op == 2 else ()
            x, y, w, h = self.region(ma)
            if form in (2, 4) and valid:
                if form == 2:
                    mb = Model(ma.w, ma.h, 1, r.choice([1, 4, 3]))
                    x2 = y2 = 0
                else:
                    mb = Model(w + r.randint(0, 5), h + r.randint(0, 5), 1, r.choice([1, 4, 3]))
                    x2, y2 = r.randint(0, mb.w - w), r.randint(0, mb.h - h)
                B = pv.Image(mb.w, mb.h, mb.cc, mb.al)
                self.paint(B, mb)
                b = len(self.im)
                self.add(B, mb)
            elif form in (2, 4):
                x2, y2 = r.randint(0, 3), r.randint(0, 3)
            else:
                x2 = y2 = 0
            if not valid and r.random() < 0.6:
                k = r.randrange(4)
                x, y, w, h = (x + (ma.w if k == 0 else 0), y, w + (ma.w if k == 1 else 0), 0 if k == 2 else (1 << 32) - max(y, 1) if k == 3 else h)
            if form in (2, 4) and r.random() < 0.1 and ma.cc == 1:
                b = a
            B, mb = (self.im[b], self.mo[b]) if form in (2, 4) else (None, None)
            reg = (x, y, x2, y2, w, h)
            if form == 4 and b == a:
                reg = (x, y, x, y, w, h)
            what = '%s form %d, input %s, output %s, region %r, value %r' % (name, form, ma.text(), mb.text() if mb else '-', reg, v)
            rc, mo, _ = self.reference(op, form, ma, mb, reg, v[0] if v else 0)
            args = {1: (A,), 2: (A, B), 3: (A, reg[0], reg[1], w, h), 4: (A, reg[0], reg[1], B, reg[2], reg[3], w, h)}[form] + v
            if r.random() < 0.1 and form in (1, 3):
                args = (pv.Image(A),) + args[1:]  # a temporary image
            if r.random() < 0.25:
                self.misuse(what, f, args)
            self.hist.append(what)
            done, res = self.call(what, lambda: f(*args), rc)
            if done and form in (2, 4):
                if res is not None:
                    raise Bad('%s returned %r' % (what, res))
                self.mo[b] = mo
                compare(B, mo, what)
            elif done:
                compare(res, mo, what)
                self.add(res, mo)
            self.hit(name)
        elif op == 3:
            x, y, w, h = self.region(ma)
            if not valid:
                w += ma.w
            what = 'Histogram form %d of %s at %r' % (form, ma.text(), (x, y, w, h))
            values = [r.randrange(5) for _ in range(r.choice([0, 3, 256]))]
            rc, _, hist = self.reference(3, form, ma, None, (x, y, 0, 0, w, h), 0, values)
            vec = pv.vectorUInt32(values)
            args = {1: (A,), 2: (A, vec), 3: (A, x, y, w, h), 4: (A, x, y, w, h, vec)}[form]
            if r.random() < 0.25:
                self.misuse(what, pv.Histogram, args)
            self.hist.append(what)
            done, res = self.call(what, lambda: pv.Histogram(*args), rc)
            got = list(vec if form in (2, 4) else res) if done else None
            if done and got != hist:
                raise Bad('%s: %r instead of %r' % (what, got, hist))
            if done:
                rc, _, th = self.reference(4, 1, None, None, values=hist)
                what = 'GetThreshold after ' + what
                done, t = self.call(what, lambda: pv.GetThreshold(vec if form in (2, 4) else res), rc)
                if done and t != th[0]:
                    raise Bad('%s: threshold %r instead of %r' % (what, t, th))
            self.hit('Histogram')
        elif op == 4:
            n = 256 if valid else r.choice([0, 1, 255])
            values = [r.choice([0, 0, 1, r.randrange(1 << 20)]) for _ in range(n)]
            if r.random() < 0.2 and n:
                values[r.randrange(n)] = r.choice([(1 << 32) - 1, 1 << 31])
            what = 'GetThreshold of %d values' % n
            rc, _, th = self.reference(4, 1, None, None, values=values)
            arg = r.choice([values, tuple(values), pv.vectorUInt32(values)])
            self.hist.append(what)
            done, res = self.call(what, lambda: pv.GetThreshold(arg), rc)
            if done and res != th[0]:
                raise Bad('%s: %r instead of %r' % (what, res, th[0]))
            self.hit('GetThreshold')
        elif op == 5:
            path = 'in.bmp' if valid else r.choice(['missing.bmp', 'broken.bmp'])
            if valid:
                m = Model(*self.size(), r.choice([1, 3]), r.choice([1, 4]))
                m.data = bytearray(r.randbytes(len(m.data)))
                rc, _, _ = self.reference(6, 1, m, None, path=path.encode())
                if rc:
                    raise RuntimeError('monitor: cannot save')
            else:
                with open('broken.bmp', 'wb') as f:
                    f.write(b'BM' + r.randbytes(r.randint(0, 90)))
            form = r.randint(1, 2)
            what = 'Load form %d of %s' % (form, path)
            rc, mo, _ = self.reference(5, form, None, ma if form == 2 else None, path=path.encode())
            if r.random() < 0.2:
                self.misuse(what, pv.Load, (path,) if form == 1 else (path, A))
            self.hist.append(what)
            done, res = self.call(what, (lambda: pv.Load(path)) if form == 1 else (lambda: pv.Load(path, A)), rc)
            if done and form == 1:
                compare(res, mo, what)
                self.add(res, mo)
            elif done:
                self.mo[a] = mo
                compare(A, mo, what)
            self.hit('Load')
        else:
            form = r.choice([1, 3])
            x, y, w, h = self.region(ma)
            if not valid and form == 3:
                h += ma.h
            for p in ('a.bmp', 'b.bmp'):
                if os.path.exists(p):
                    os.remove(p)
            bad = not valid and r.random() < 0.3
            p1, p2 = ('none/a.bmp', b'none/b.bmp') if bad else ('a.bmp', b'b.bmp')
            what = 'Save form %d of %s at %r to %s' % (form, ma.text(), (x, y, w, h), p1)
            rc, _, _ = self.reference(6, form, ma, None, (x, y, 0, 0, w, h), path=p2)
            if r.random() < 0.2:
                self.misuse(what, pv.Save, (p1, A) if form == 1 else (p1, A, x, y, w, h))
            self.hist.append(what)
            done, res = self.call(what, (lambda: pv.Save(p1, A)) if form == 1 else (lambda: pv.Save(p1, A, x, y, w, h)), rc)
            if done:
                with open(p1, 'rb') as f1, open(p2, 'rb') as f2:
                    if f1.read() != f2.read():
                        raise Bad('%s: the files differ' % what)
            self.hit('Save')

    def run(self):
        self.new()
        for _ in range(self.r.randint(4, 14)):
            if self.r.random() < 0.45:
                self.step_object()
            else:
                self.step_function()
            self.check()
            if len(self.im) > 10:
                del self.im[0], self.mo[0]


def threads_case(r):
    """calls from several Python threads"""
    errors, counts, calls = [], {}, [0]

    def one(seed):
        c = Case(random.Random(seed))
        c.hist = []
        c.step_function_files = False
        try:
            c.new()
            for _ in range(8):
                c.step_object()
                c.check()
        except Bad as e:
            errors.append('%s after %s' % (e, ' '.join(c.hist)))
        calls[0] += len(c.hist)

    ts = [threading.Thread(target=one, args=(r.getrandbits(60),)) for _ in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return errors, calls[0]


def main():
    crumb = None
    if opt.crumb:
        with open(opt.crumb, 'wb') as f:
            f.truncate(4096)
        f = open(opt.crumb, 'r+b')
        crumb = mmap.mmap(f.fileno(), 4096)

    def note(s):
        if crumb:
            b = s.encode('latin-1', 'replace')[:4000] + b'\0'
            crumb[:len(b)] = b
    failures, evaluations = 0, 0
    counters, distinct, samples = {}, set(), []
    base, t0 = None, time.time()
    cases = [opt.only] if opt.only >= 0 else range(opt.shard, opt.count, opt.shards)
    if opt.only >= 0:  # what is made once
        cases = [opt.only, opt.only]
    for pos, idx in enumerate(cases):
        if idx < opt.first:
            continue
        if time.time() - t0 > opt.secs:
            counters['stopped_by_time'] = 1
            break
        r = random.Random('%d/%d' % (opt.seed, idx))
        c = Case(r)
        note('case=%d ' % idx)
        bad = None
        if idx % 25 == 24:
            errors, n = threads_case(r)
            evaluations += n
            counters['threads'] = counters.get('threads', 0) + 3
            bad = errors[0] if errors else None
            text = 'three threads'
        else:
            class Log(list):  # the breadcrumb follows the history
                def append(self, s):
                    list.append(self, s)
                    note('case=%d %s' % (idx, ' '.join(self)[-3900:]))
            c.hist = Log()
            try:
                c.run()
            except Bad as e:
                bad = str(e)
            text = ' '.join(c.hist)
            evaluations += len(c.hist)
        for k, v in c.counts.items():
            counters[k] = counters.get(k, 0) + v
        distinct.add(int(hashlib.sha256(text.encode()).hexdigest()[:15], 16))
        if len(samples) < 6:
            samples.append(text[:300])
        del c
        gc.collect()
        live = (probe.vf_live_blocks(), probe.vf_live_bytes())
        if bad is None and base is not None and live != base:
            bad = 'after the last reference has ended, %d blocks of %d bytes are in use, before %d of %d' % (live + base)
        if pos > 0 or len(list(cases)) == 1:
            base = live
        if bad is not None:
            failures += 1
            if failures < 10:
                print('FAIL case=%d sig=python/%s :: %s after: %s' % (idx, ' '.join(bad.split()[:2]).strip(':,'), bad.replace('\n', ' '), text.replace('\n', ' ')[-1500:]))
                sys.stdout.flush()
    if opt.out:
        with open(opt.out, 'w') as f:
            json.dump({'evaluations': evaluations, 'failures': failures, 'counters': counters, 'samples': samples, 'distinct': sorted(distinct)}, f)
    print('DONE evaluations=%d failures=%d' % (evaluations, failures))
    sys.stdout.flush()
    os._exit(1 if failures else 0)


main()
