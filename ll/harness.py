"""Harness text for the generated stubs and skeletons.

The client side of every method is called through `w_<n>(Object *self, void **v)`, the implementation side of every
method calls the undefined function `ext_<n>(void *me, void **v)`; `v` holds, parameter after parameter,
  fixed data       -> pointer to the value
  array / buffer   -> data pointer, pointer to the length; for outputs also pointer to the reported length
  object           -> pointer to the Object;   object array -> pointer to Object[N]
The analyser creates the memory behind `v` (client side) or inspects it (implementation side)."""

CT = {"uint8": "uint8_t", "uint16": "uint16_t", "uint32": "uint32_t", "uint64": "uint64_t", "int8": "int8_t", "int16": "int16_t",
      "int32": "int32_t", "int64": "int64_t", "float32": "float", "float64": "double"}
RT = {"uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64", "int8": "i8", "int16": "i16",
      "int32": "i32", "int64": "i64", "float32": "f32", "float64": "f64"}


def slots(sp, m):
    """[(param, kind, what)] for every entry of v"""
    out = []
    for p in m.params:
        k = sp.kind(p)
        if k in ("buf", "arr"):
            out += [(p, k, "data"), (p, k, "len")]
            if p.dir == "out":
                out.append((p, k, "lenout"))
        else:
            out.append((p, k, "val"))
    return out


# ---- C ------------------------------------------------------------------------------------------
def c_type(sp, ty):
    if ty in CT:
        return CT[ty]
    if ty == "interface":
        return "Object"
    return ty


def c_stub(sp, iface, tag=""):
    s = []
    for _, m, op in sp.ops(iface):
        args = ["*self"]
        i = 0
        for p in m.params:
            k = sp.kind(p)
            t = c_type(sp, p.ty)
            if k == "fixed":
                if p.dir == "out":
                    args.append(f"({t} *)v[{i}]")
                elif p.ty in sp.structs:
                    args.append(f"(const {t} *)v[{i}]")
                else:
                    args.append(f"*({t} *)v[{i}]")
                i += 1
            elif k == "obj":
                args.append(f"*(Object *)v[{i}]" if p.dir == "in" else f"(Object *)v[{i}]")
                i += 1
            elif k == "objs":
                args.append(f"({'const ' if p.dir == 'in' else ''}Object (*)[{p.arr}])v[{i}]")
                i += 1
            else:
                args.append(f"v[{i}]")
                args.append(f"*(size_t *)v[{i + 1}]")
                i += 2
                if p.dir == "out":
                    args.append(f"(size_t *)v[{i}]")
                    i += 1
        s.append(f"int32_t w_{tag}{iface}_{m.name}(Object *self, void **v) {{ (void)v; return {iface}_{m.name}({', '.join(args)}); }}")
    return "\n".join(s) + "\n"


def c_impl(sp, iface, pfx, provide=True):
    s = [f"int32_t ext_release(void *me);\nint32_t ext_retain(void *me);",
         f"int32_t {pfx}release(void *me) {{ return ext_release(me); }}", f"int32_t {pfx}retain(void *me) {{ return ext_retain(me); }}"]
    for _, m, op in sp.ops(iface):
        if m.optional and not provide:
            continue
        args = ["void *me"]
        v = []
        for p in m.params:
            k = sp.kind(p)
            t = c_type(sp, p.ty)
            n = p.name
            if k == "fixed":
                if p.dir == "out":
                    args.append(f"{t} *p_{n}")
                    v.append(f"(void *)p_{n}")
                elif p.ty in sp.structs:
                    args.append(f"const {t} *p_{n}")
                    v.append(f"(void *)p_{n}")
                else:
                    args.append(f"{t} p_{n}")
                    v.append(f"(void *)&p_{n}")
            elif k == "obj":
                args.append(f"{t} p_{n}" if p.dir == "in" else f"{t} *p_{n}")
                v.append(f"(void *)&p_{n}" if p.dir == "in" else f"(void *)p_{n}")
            elif k == "objs":
                args.append(f"{'const ' if p.dir == 'in' else ''}{t} (*p_{n})[{p.arr}]")
                v.append(f"(void *)p_{n}")
            else:
                et = "void" if k == "buf" else t
                args.append(f"{'const ' if p.dir == 'in' else ''}{et} *p_{n}")
                args.append(f"size_t len_{n}")
                v += [f"(void *)p_{n}", f"(void *)&len_{n}"]
                if p.dir == "out":
                    args.append(f"size_t *lenout_{n}")
                    v.append(f"(void *)lenout_{n}")
        nm = f"{iface}_{m.name}"
        s.append(f"int32_t ext_{nm}(void *me, void **v);\nint32_t {pfx}{m.name}({', '.join(args)}) {{ void *v[] = {{ {', '.join(v + ['0'])} }}; return ext_{nm}(me, v); }}")
    s.append(f"{iface}_DEFINE_INVOKE(inv_{pfx}{iface}, {pfx}, void *)")
    return "\n".join(s) + "\n"


# ---- C++ ----------------------------------------------------------------------------------------
def cpp_type(sp, ty):
    if ty in CT:
        return CT[ty]
    if ty == "interface":
        return "ProxyBase"
    return ty


def cpp_stub(sp, iface, tag=""):
    s = []
    for _, m, op in sp.ops(iface):
        pre, args, post = [], [], []
        i = 0
        for p in m.params:
            k = sp.kind(p)
            t = cpp_type(sp, p.ty)
            n = f"p_{p.name}"
            if k == "fixed":
                if p.ty in sp.structs:
                    args.append(f"*({t} *)v[{i}]")
                elif p.dir == "out":
                    args.append(f"({t} *)v[{i}]")
                else:
                    args.append(f"*({t} *)v[{i}]")
                i += 1
            elif k == "obj":
                if p.dir == "in":
                    pre.append(f"{t} {n}(*(Object *)v[{i}]);")
                    post.append(f"{n}.extract();")
                else:
                    pre.append(f"{t} {n};")
                    post.append(f"*(Object *)v[{i}] = {n}.extract();")
                args.append(n)
                i += 1
            elif k == "objs":
                if p.dir == "in":
                    pre.append(f"{t} {n}[{p.arr}] = {{ " + ", ".join(f"{t}(((Object *)v[{i}])[{j}])" for j in range(p.arr)) + " };")
                    post += [f"{n}[{j}].extract();" for j in range(p.arr)]
                else:
                    pre.append(f"{t} {n}[{p.arr}];")
                    post += [f"((Object *)v[{i}])[{j}] = {n}[{j}].extract();" for j in range(p.arr)]
                args.append(n)
                i += 1
            else:
                args.append(f"({'void' if k == 'buf' else t} *)v[{i}]")
                args.append(f"*(size_t *)v[{i + 1}]")
                i += 2
                if p.dir == "out":
                    args.append(f"(size_t *)v[{i}]")
                    i += 1
        s.append(f'extern "C" int32_t w_{tag}{iface}_{m.name}(Object *self, void **v) {{ (void)v; {iface} proxy(*self); {" ".join(pre)} '
                 f'int32_t res = proxy.{m.name}({", ".join(args)}); {" ".join(post)} proxy.extract(); return res; }}')
    return "\n".join(s) + "\n"


def cpp_impl(sp, iface, cls, provide=True):
    s = []
    ms = []
    for _, m, op in sp.ops(iface):
        if m.optional and not provide:
            continue
        args = []
        v = []
        pre, post = [], []
        for p in m.params:
            k = sp.kind(p)
            t = cpp_type(sp, p.ty)
            n = "p_" + p.name
            if k == "fixed":
                if p.ty in sp.structs:
                    args.append(f"{'const ' if p.dir == 'in' else ''}{t} &{n}")
                    v.append(f"(void *)&{n}")
                elif p.dir == "out":
                    args.append(f"{t} *{n}")
                    v.append(f"(void *){n}")
                else:
                    args.append(f"{t} {n}")
                    v.append(f"(void *)&{n}")
            elif k == "obj":
                args.append(f"{'const ' if p.dir == 'in' else ''}{t} &{n}")
                if p.dir == "in":
                    pre.append(f"Object t_{n} = {n}.get();")
                else:
                    pre.append(f"Object t_{n};")
                    post.append(f"{n}.consume(t_{n});")
                v.append(f"(void *)&t_{n}")
            elif k == "objs":
                args.append(f"{'const ' if p.dir == 'in' else ''}{t} (&{n})[{p.arr}]")
                if p.dir == "in":
                    pre.append(f"Object t_{n}[{p.arr}] = {{ " + ", ".join(f"{n}[{j}].get()" for j in range(p.arr)) + " };")
                else:
                    pre.append(f"Object t_{n}[{p.arr}];")
                    post += [f"{n}[{j}].consume(t_{n}[{j}]);" for j in range(p.arr)]
                v.append(f"(void *)t_{n}")
            else:
                et = "void" if k == "buf" else t
                args.append(f"{'const ' if p.dir == 'in' else ''}{et} *{n}")
                args.append(f"size_t len_{n}")
                v += [f"(void *){n}", f"(void *)&len_{n}"]
                if p.dir == "out":
                    args.append(f"size_t *lenout_{n}")
                    v.append(f"(void *)lenout_{n}")
        nm = f"{iface}_{m.name}"
        s.append(f'extern "C" int32_t ext_{nm}(void *me, void **v);')
        ms.append(f"  virtual int32_t {m.name}({', '.join(args)}) {{ {' '.join(pre)} void *v[] = {{ {', '.join(v + ['0'])} }}; "
                  f"int32_t r = ext_{nm}((void *)this, v); {' '.join(post)} return r; }}")
    s.append('extern "C" void ext_drop(void *me);')
    s.append(f"class {cls} : public {iface}ImplBase {{\n public:\n  {cls}() {{}}\n  virtual ~{cls}() {{ ext_drop((void *)this); }}\n"
             f"  static ImplBase *up({cls} *x) {{ return x; }}\n  static ObjectInvoke inv() {{ return ImplBase::invoke; }}\n" + "\n".join(ms) + "\n};")
    s.append(f'extern "C" void mk_{cls}(Object *o) {{ o->invoke = {cls}::inv(); o->context = (ObjectCxt){cls}::up(new {cls}()); }}')
    return "\n".join(s) + "\n"


# ---- Rust ---------------------------------------------------------------------------------------
def rs_name(n):
    return n.lower()


class RustPaths:
    """module of every declaration: structs and file constants live in the module of their file, interfaces in their own"""

    def __init__(self, sp, files):
        self.where = {}
        for path, f in files.items():
            stem = path.rsplit("/", 1)[-1].rsplit(".", 1)[0].lower()
            for d in f.decls:
                self.where[d.name] = stem if type(d).__name__ != "Iface" else d.name.lower()

    def ty(self, sp, ty):
        if ty in RT:
            return RT[ty]
        if ty == "interface":
            return "crate::object::Object"
        if ty == "buffer":
            return "u8"
        return f"crate::interfaces::r#{self.where[ty]}::r#{ty}" if ty in sp.structs else f"crate::interfaces::r#{self.where[ty]}::{ty}"


def rs_sig(sp, rp, m):
    ps, outs = [], []
    for p in m.params:
        k = sp.kind(p)
        t = rp.ty(sp, p.ty)
        n = "p_" + p.name
        if k == "fixed":
            if p.dir == "in":
                ps.append((n, f"&{t}" if p.ty in sp.structs else t))
            else:
                outs.append(t)
        elif k == "obj":
            if p.dir == "in":
                ps.append((n, f"Option<&{t}>"))
            else:
                outs.append(f"Option<{t}>")
        elif k == "objs":
            if p.dir == "in":
                ps.append((n, f"&[Option<{t}>; {p.arr}]"))
            else:
                outs.append(f"[Option<{t}>; {p.arr}]")
        else:
            et = "u8" if k == "buf" else t
            if p.dir == "in":
                ps.append((n, f"&[{et}]"))
            else:
                ps.append((n, f"&mut [{et}]"))
                ps.append(("lenout_" + n, "&mut usize"))
    return ps, outs


def rs_stub(sp, rp, iface, tag=""):
    s = []
    for own, m, op in sp.ops(iface):
        ps, outs = rs_sig(sp, rp, m)
        pre, args, post = [], [], []
        i = 0
        oi = 0
        names = [f"o{j}" for j in range(len(outs))]
        for p in m.params:
            k = sp.kind(p)
            t = rp.ty(sp, p.ty)
            at = f"(*v.add({i}))"
            if k == "fixed":
                if p.dir == "in":
                    args.append(f"&*{at}.cast::<{t}>()" if p.ty in sp.structs else f"*{at}.cast::<{t}>()")
                else:
                    post.append(f"std::ptr::write({at}.cast::<{t}>(), o{oi});")
                    oi += 1
                i += 1
            elif k == "obj":
                if p.dir == "in":
                    args.append(f"(*{at}.cast::<Option<{t}>>()).as_ref()")
                else:
                    post.append(f"std::ptr::write({at}.cast::<Option<{t}>>(), o{oi});")
                    oi += 1
                i += 1
            elif k == "objs":
                if p.dir == "in":
                    args.append(f"&*{at}.cast::<[Option<{t}>; {p.arr}]>()")
                else:
                    post.append(f"std::ptr::write({at}.cast::<[Option<{t}>; {p.arr}]>(), o{oi});")
                    oi += 1
                i += 1
            else:
                et = "u8" if k == "buf" else t
                ln = f"*(*v.add({i + 1})).cast::<usize>()"
                if p.dir == "in":
                    args.append(f"std::slice::from_raw_parts({at}.cast::<{et}>(), {ln})")
                    i += 2
                else:
                    args.append(f"std::slice::from_raw_parts_mut({at}.cast::<{et}>(), {ln})")
                    args.append(f"&mut *(*v.add({i + 2})).cast::<usize>()")
                    i += 3
        pat = "()" if not outs else (f"({names[0]})" if len(outs) == 1 else "(" + ", ".join(names) + ")")
        it = rp.ty(sp, iface)
        s.append(f'#[no_mangle]\npub unsafe extern "C" fn w_{tag}{iface}_{m.name}(s: *mut crate::object::Object, v: *mut *mut u8) -> i32 {{\n'
                 f'    let proxy: &{it} = &*s.cast::<{it}>();\n'
                 f'    match proxy.r#{m.name}({", ".join(args)}) {{\n        Ok({pat}) => {{ {" ".join(post)} 0 }}\n'
                 f'        Err(e) => i32::from(crate::object::Error::from(e)),\n    }}\n}}')
    return "\n".join(s) + "\n"


def rs_impl(sp, rp, iface, cls, provide=True):
    s = [f"pub struct {cls}(pub u32);", f'impl Drop for {cls} {{ fn drop(&mut self) {{ unsafe {{ ext_drop((self as *mut Self).cast()) }} }} }}']
    for i in sp.chain(iface):
        body = []
        mod = rp.where[i.name]
        for m in i.methods:
            if m.optional and not provide:
                continue
            ps, outs = rs_sig(sp, rp, m)
            pre, v = [], []
            oi = 0
            for p in m.params:
                k = sp.kind(p)
                n = "p_" + p.name
                if k in ("fixed", "obj", "objs"):
                    if p.dir == "in":
                        if k == "fixed" and p.ty in sp.structs or k == "objs":
                            v.append(f"({n} as *const _ as *mut u8)")
                        elif k == "obj":
                            pre.append(f"let a_{p.name}: [usize; 2] = match {n} {{ Some(x) => std::ptr::read((x as *const _) as *const [usize; 2]), None => [0, 0] }};")
                            v.append(f"(std::ptr::addr_of!(a_{p.name}) as *mut u8)")
                        else:
                            v.append(f"(std::ptr::addr_of!({n}) as *mut u8)")
                    else:
                        pre.append(f"let mut o{oi} = std::mem::MaybeUninit::<{outs[oi]}>::uninit();")
                        v.append(f"o{oi}.as_mut_ptr().cast::<u8>()")
                        oi += 1
                else:
                    pre.append(f"let l_{p.name}: usize = {n}.len();")
                    v.append(f"({n}.as_ptr() as *mut u8)")
                    v.append(f"(std::ptr::addr_of!(l_{p.name}) as *mut u8)")
                    if p.dir == "out":
                        v.append(f"(lenout_{n} as *mut usize).cast::<u8>()")
            ret = "()" if not outs else "(" + ", ".join(outs) + ")"
            okv = "()" if not outs else ("(" + ", ".join(f"o{j}.assume_init()" for j in range(oi)) + ")")
            nm = f"{iface}_{m.name}"
            sig = "".join(f", {a}: {t}" for a, t in ps)
            body.append(f"    fn r#{m.name}(&mut self{sig}) -> Result<{ret}, crate::interfaces::r#{mod}::Error> {{ unsafe {{\n"
                        f"        {' '.join(pre)}\n        let mut v: [*mut u8; {len(v) + 1}] = [{', '.join(v + ['std::ptr::null_mut()'])}];\n"
                        f"        let r = ext_{nm}((self as *mut Self).cast(), v.as_mut_ptr());\n"
                        f"        if r == 0 {{ Ok({okv}) }} else {{ Err(crate::object::Error::new_unchecked(r).into()) }}\n    }} }}")
            s.append(f'extern "C" {{ fn ext_{nm}(me: *mut u8, v: *mut *mut u8) -> i32; }}')
        s.append(f"impl crate::interfaces::r#{mod}::I{i.name} for {cls} {{\n" + "\n".join(body) + "\n}")
    it = rp.ty(sp, iface)
    s.append(f'#[no_mangle]\npub unsafe extern "C" fn mk_{cls}(o: *mut crate::object::Object) {{ let x: {it} = {it}::from({cls}(7)); '
             f'std::ptr::write(o.cast::<{it}>(), x); }}')
    return "\n".join(s) + "\n"
