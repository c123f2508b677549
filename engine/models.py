"""Transfer functions for library calls (std, camino, itertools, anyhow, fmt, quote)."""
from interp import T, some, NONE, ok, err, UNIT, TRUE, FALSE, cat, is_const, CONST, OPT, RES

MODELS = {}


def model(*names):
    def f(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return f


def ret(st, v):
    return [('ret', st, v)]


# ------------------------------------------------------------ conversions
@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'String::as_str', 'Utf8PathBuf::as_path', 'Utf8Path::as_path',
       'Utf8Path::as_std_path', 'Utf8Path::new', 'OsStr::new', 'Path::new', 'Utf8Path::as_str', 'Vec::as_slice', 'Utf8Path::as_os_str',
       'hint::must_use', '__private::must_use', 'Pin::new', 'String::as_bytes', 'str::as_bytes', 'TempDir::path_', 'AsMut::as_mut',
       'convert::identity', 'hint::black_box', 'OsString::as_os_str', 'PathBuf::as_path', 'Vec::as_mut_slice', 'array::as_slice', 'String::into_boxed_str',
       '[T]::as_ref', 'Vec::into_boxed_slice', 'Utf8Component::as_str', 'Utf8Component::as_os_str')
def ident_ref(ip, st, c):
    a = c.args[0]
    if a[0] == 'ref':
        v = ip.read(st, a[1], a[2])
        if v[0] == 'guard':
            return ret(st, v[1])
        if v[0] == 'ref':
            return ret(st, v)
    if a[0] == 'guard':
        return ret(st, a[1])
    return ret(st, a)


@model('Clone::clone', 'ToOwned::to_owned', 'From::from', 'Into::into', 'Utf8Path::to_path_buf', 'Path::to_path_buf', 'String::from', 'str::to_string',
       'str::to_owned', 'PathBuf::from', 'Utf8PathBuf::from', 'Arc::new', 'Box::new', 'Rc::new', 'Arc::clone', 'Utf8PathBuf::into_std_path_buf', 'str::into_string',
       'Utf8PathBuf::into_string', 'Cow::into_owned', 'String::into_bytes', '[T]::to_vec', 'str::into_boxed_str', 'OsStr::to_os_string',
       'BufWriter::new', 'BufReader::new', 'Component::as_str', 'Cow::to_mut', 'Box::into_inner', '[T]::into_vec', 'ptr::read', 'ManuallyDrop::new', 'Arc::unwrap_or_clone')
def ident_val(ip, st, c):
    if not c.args:
        return None
    v = ip.val(st, c.args[0])
    # keep a shared handle to interior-mutable state
    if v[0] == 'adt' and v[1] == 'std::sync::Mutex' and c.args[0][0] == 'ref':
        return ret(st, c.args[0])
    return ret(st, v)


@model('ToString::to_string')
def to_string(ip, st, c):
    v = ip.mat(st, c.args[0])
    if v[0] == 's':
        return ret(st, v)
    if v[0] == 'ch':
        return ret(st, ('s', v[1]))
    ty = ip.p.types[c.argty[0]] if c.argty else None
    if ty is None and c.inst is not None and ip.p.insts[c.inst]['args']:
        ty = ip.p.types[ip.p.insts[c.inst]['args'][0]]
    if ty:
        while ty['k'] == 'ref':
            ty = ip.p.types[ty['t']]
        s = ty['s']
        if s in ('str', 'std::string::String', 'camino::Utf8Path', 'camino::Utf8PathBuf', 'std::borrow::Cow<\'_, str>') or s.startswith('std::borrow::Cow'):
            return ret(st, v)
    return ret(st, T('display', v))


@model('TryFrom::try_from', 'TryInto::try_into')
def try_into(ip, st, c):
    v = ip.val(st, c.args[0])
    t = T('try_into', ip.mat(st, v))
    s2 = st.copy()
    out = []
    d = T('discr', t, RES)
    if ip.assume(st, d, ('i', 0)):
        out.append(('ret', st, ok(v)))
    if ip.assume(s2, d, ('i', 1)):
        out.append(('ret', s2, err(T('fld', T('as', t, 'Err'), '0'))))
    return out


@model('Context::context', 'Context::with_context')
def context(ip, st, c):
    if c.selfty and 'Option' in c.selfty:
        v = ip.val(st, c.args[0])
        out = []
        if v[0] == 'adt':
            if v[2] == 1:
                return ret(st, ok(v[3][0]))
            return ret(st, err(T('context')))
        m = ip.mat(st, v)
        d = T('discr', m, OPT)
        s2 = st.copy()
        if ip.assume(st, d, ('i', 1)):
            out.append(('ret', st, ok(T('fld', T('as', m, 'Some'), '0'))))
        if ip.assume(s2, d, ('i', 0)):
            out.append(('ret', s2, err(T('context'))))
        return out
    return ret(st, ip.val(st, c.args[0]))


@model('Error::context', 'Error::new', 'Error::msg', '__private::format_err', 'Adhoc::new', 'AdhocKind::anyhow_kind')
def anyhow_err(ip, st, c):
    return ret(st, T('error', *[ip.mat(st, a) for a in c.args]))


@model('__private::not')
def anyhow_not(ip, st, c):
    return ret(st, ip.mk_not(ip.val(st, c.args[0])))


@model('Default::default', 'Vec::new', 'Vec::with_capacity', 'String::new', 'String::with_capacity', 'VecDeque::new', 'TokenStream::new', 'VecDeque::with_capacity')
def default(ip, st, c):
    s = ip.p.types[c.destty]['s'] if c.destty is not None else ''
    if c.short == 'TokenStream::new' or s == 'proc_macro2::TokenStream':
        return ret(st, ('toks', ()))
    if s.startswith('std::vec::Vec') or s.startswith('std::collections::VecDeque') or c.short.startswith('Vec'):
        return ret(st, ('seq', ()))
    if s == 'std::string::String' or c.short.startswith('String') or s in ('camino::Utf8PathBuf', 'std::path::PathBuf'):
        return ret(st, ('s', ''))
    if s == 'bool':
        return ret(st, FALSE)
    if s in ('usize', 'u64', 'i64', 'i32', 'u32'):
        return ret(st, ('i', 0))
    if s.startswith('std::option::Option'):
        return ret(st, NONE)
    return ret(st, T('default', s))


# ------------------------------------------------------------ boxes / vec! macro
@model('Box::new_uninit')
def new_uninit(ip, st, c):
    loc = ('H', c.site)
    st.mem[loc] = T('uninit')
    return ret(st, ('ref', loc, ()))


@model('boxed::box_assume_init_into_vec_unsafe')
def assume_init(ip, st, c):
    a = c.args[0]
    v = ip.val(st, a)
    while v[0] == 'ov':
        v = v[2][-1][1]
    if a[0] == 'ref':
        st.mem.pop(a[1], None)
    return ret(st, v)


# ------------------------------------------------------------ equality / order
@model('PartialEq::eq', 'Ident::eq')
def eq(ip, st, c):
    a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
    return ret(st, ip.mk_eq(st, a, b))


@model('PartialEq::ne')
def ne(ip, st, c):
    a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
    return ret(st, ip.mk_not(ip.mk_eq(st, a, b)))


def _cmp(op):
    def f(ip, st, c):
        a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
        return ret(st, ip.cmp(st, op, a, b))
    return f


for _n, _o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    MODELS['PartialOrd::' + _n] = _cmp(_o)


def _minmax(name):
    def f(ip, st, c):
        a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
        if a[0] == 'i' and b[0] == 'i':
            return ret(st, ('i', (max if name == 'max' else min)(a[1], b[1])))
        if repr(b) < repr(a):
            a, b = b, a
        return ret(st, T(name, a, b))
    return f


for _n in ('max', 'min'):
    for _p in ('cmp::', 'Ord::', 'f64::', 'usize::'):
        MODELS['=' + _p + _n] = _minmax(_n)


# ------------------------------------------------------------ strings
def flat_str(ip, st, v):
    return ip.mat(st, v)


@model('String::push_str', 'AddAssign::add_assign')
def push_str(ip, st, c):
    a = c.args[0]
    if a[0] != 'ref':
        return None
    cur = ip.val(st, a)
    if cur[0] == 'i' or (c.short.startswith('Add') and not _is_stringy(ip, c)):
        ip.write(st, a[1], a[2], ip.arith('add', cur, ip.mat(st, c.args[1])))
        return ret(st, UNIT)
    ip.write(st, a[1], a[2], cat(cur, ip.mat(st, c.args[1])))
    return ret(st, UNIT)


def _is_stringy(ip, c):
    return c.selfty is None or 'String' in c.selfty


@model('String::push')
def push_char(ip, st, c):
    a = c.args[0]
    if a[0] != 'ref':
        return None
    ip.write(st, a[1], a[2], cat(ip.val(st, a), ip.mat(st, c.args[1])))
    return ret(st, UNIT)


@model('Add::add')
def add(ip, st, c):
    a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
    if c.selfty and 'String' in c.selfty:
        return ret(st, cat(a, b))
    return ret(st, ip.arith('add', a, b))


def _ar(op):
    def f(ip, st, c):
        return ret(st, ip.arith(op, ip.mat(st, c.args[0]), ip.mat(st, c.args[1])))
    return f


for _t, _m, _o in (('Sub', 'sub', 'sub'), ('Mul', 'mul', 'mul'), ('Div', 'div', 'div'), ('Rem', 'rem', 'rem')):
    MODELS['%s::%s' % (_t, _m)] = _ar(_o)


@model('Not::not')
def not_(ip, st, c):
    return ret(st, ip.mk_not(ip.mat(st, c.args[0])))


@model('String::is_empty', 'str::is_empty', 'Vec::is_empty', 'Punctuated::is_empty', '[T]::is_empty', 'VecDeque::is_empty', 'Punctuated::is_empty')
def is_empty(ip, st, c):
    return ret(st, ip.is_empty_term(st, ip.mat(st, c.args[0])))


@model('String::len', 'str::len', 'Vec::len', '[T]::len', 'VecDeque::len', 'ExactSizeIterator::len', 'Punctuated::len')
def length(ip, st, c):
    v = ip.val(st, c.args[0])
    if v[0] == 'it':
        v = it_to_seq(ip, v)
    return ret(st, ip.seq_len(st, v))


def _strpred(name, fn):
    def f(ip, st, c):
        a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
        bs = b[1] if b[0] in ('s', 'ch') else None
        if bs is not None:
            if a[0] == 's':
                return ret(st, ('b', fn(a[1], bs)))
            if a[0] == 'cat':
                if name == 'starts_with' and a[1][0][0] == 's' and len(a[1][0][1]) >= len(bs):
                    return ret(st, ('b', fn(a[1][0][1], bs)))
                if name == 'ends_with' and a[1][-1][0] == 's' and len(a[1][-1][1]) >= len(bs):
                    return ret(st, ('b', fn(a[1][-1][1], bs)))
        return ret(st, ip.lookup(st, T(name, a, ('s', bs) if bs is not None else b)))
    return f


for _n, _f in (('starts_with', lambda a, b: a.startswith(b)), ('ends_with', lambda a, b: a.endswith(b)), ('contains', lambda a, b: b in a)):
    MODELS['str::' + _n] = _strpred(_n, _f)


@model('str::trim', 'str::to_lowercase', 'str::to_uppercase', 'str::trim_start', 'str::trim_end')
def strfn(ip, st, c):
    a = ip.mat(st, c.args[0])
    n = c.short.split('::')[1]
    if a[0] == 's':
        return ret(st, ('s', {'trim': a[1].strip, 'trim_start': a[1].lstrip, 'trim_end': a[1].rstrip, 'to_lowercase': a[1].lower, 'to_uppercase': a[1].upper}[n]()))
    return ret(st, T(n, a))


@model('str::replace', 'str::replacen')
def str_replace(ip, st, c):
    a = [ip.mat(st, x) for x in c.args]
    if all(x[0] in ('s', 'ch') for x in a[:3]) and (len(a) == 3 or a[3][0] == 'i'):
        return ret(st, ('s', a[0][1].replace(a[1][1], a[2][1], *([a[3][1]] if len(a) > 3 else []))))
    return ret(st, T(c.short, *a))


@model('OsStr::to_string_lossy', 'PathExt::to_slash_lossy', 'String::from_utf8_lossy', 'Path::to_string_lossy', 'Utf8Path::to_string', 'Path::display', 'OsStr::to_str_',
       'PathExt::to_slash')
def lossy(ip, st, c):
    return ret(st, ip.val(st, c.args[0]))


@model('OsStr::to_str', 'Path::to_str')
def to_str(ip, st, c):
    return ret(st, some(ip.val(st, c.args[0])))


def path_join(a, b):
    if a[0] == 's' and b[0] == 's':
        if not b[1]:
            return a  # equal as a path
        return ('s', b[1] if b[1].startswith('/') or not a[1] else a[1] + ('' if a[1].endswith('/') else '/') + b[1])
    if a[0] == 't' and a[1] == 'join':
        return T('join', *(a[2:] + (b,)))
    return T('join', a, b)


@model('Utf8Path::join', 'Path::join')
def join_path(ip, st, c):
    return ret(st, path_join(ip.mat(st, c.args[0]), ip.mat(st, c.args[1])))


@model('Utf8PathBuf::push', 'PathBuf::push')
def push_path(ip, st, c):
    a = c.args[0]
    if a[0] != 'ref':
        return None
    ip.write(st, a[1], a[2], path_join(ip.val(st, a), ip.mat(st, c.args[1])))
    return ret(st, UNIT)


@model('[T]::join', 'Join::join', 'Itertools::join', '[T]::concat')
def join_seq(ip, st, c):
    v = ip.val(st, c.args[0])
    sep = ip.mat(st, c.args[1]) if len(c.args) > 1 else ('s', '')
    outs = []
    for s, seq in consume(ip, st, v, c):
        m = ip.mat(s, seq)
        if m[0] == 'seq' and all(x[0] == 'e' for x in m[1]):
            parts = []
            for k, x in enumerate(m[1]):
                if k:
                    parts.append(sep)
                parts.append(x[1])
            outs.append(('ret', s, cat(*parts) if parts else ('s', '')))
        elif sep == ('s', '') and m[0] == 'seq':
            outs.append(('ret', s, cat(*[x[1] if x[0] == 'e' else T('each', x[1]) for x in m[1]])))
        else:
            outs.append(('ret', s, T('joined', m, sep)))
    return outs


# ------------------------------------------------------------ fmt
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def fmtarg(ip, st, c):
    return ret(st, ('fmtarg', c.short.split('_')[-1], ip.mat(st, c.args[0])))


def parse_template(b):
    """decode the fmt::Arguments template byte string"""
    out = []
    i = 0
    argi = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(('lit', bytes(b[i:i + x]).decode('utf8', 'replace')))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(('lit', bytes(b[i:i + n]).decode('utf8', 'replace')))
            i += n
        else:
            flags = width = prec = None
            if x & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
            if x & 2:
                width = b[i] | b[i + 1] << 8
                i += 2
            if x & 4:
                prec = b[i] | b[i + 1] << 8
                i += 2
            if x & 8:
                argi = b[i] | b[i + 1] << 8
                i += 2
            out.append(('arg', argi, flags, width, prec))
            argi += 1
    return out


@model('Arguments::new')
def fmtargs(ip, st, c):
    t = ip.mat(st, c.args[0])
    if t[0] == 'seq':
        b = [s[1][1] for s in t[1]]
    elif t[0] == 'bytes':
        b = list(t[1])
    else:
        return ret(st, T('fmtargs', t))
    a = ip.mat(st, c.args[1])
    args = [s[1] for s in a[1]] if a[0] == 'seq' else []
    parts = []
    for p in parse_template(b):
        if p[0] == 'lit':
            parts.append(('s', p[1]))
        else:
            v = args[p[1]] if p[1] < len(args) else T('?')
            kind = 'display'
            if v[0] == 'fmtarg':
                kind, v = v[1], v[2]
            if p[3] and not p[4] and kind == 'display' and v[0] in ('i', 's') and (v[0] == 's' or v[1] >= 0):
                fl = p[2] or 0
                t = str(v[1])
                if fl >> 24 & 1 and v[0] == 'i':
                    t = t.rjust(p[3], '0')
                else:
                    al = fl >> 29 & 3
                    fill = chr(fl & 0x1FFFFF) if fl & 0x1FFFFF else ' '
                    al = (1 if v[0] == 'i' else 0) if al == 3 else al
                    t = t.ljust(p[3], fill) if al == 0 else t.rjust(p[3], fill) if al == 1 else None
                if t is not None:
                    parts.append(('s', t))
                    continue
            if p[2] or p[3] or p[4]:
                parts.append(T('fmtspec', ('i', p[2] or 0), ('i', p[3] or 0), ('i', p[4] or 0), v))
            elif kind == 'display':
                if v[0] == 'i':
                    v = ('s', str(v[1]))
                parts.append(v)
            else:
                parts.append(T('debug', v))
    return ret(st, cat(*parts))


@model('Arguments::from_str', 'Arguments::new_const')
def fmt_const(ip, st, c):
    v = ip.mat(st, c.args[0])
    if v[0] == 'seq' and len(v[1]) == 1:
        v = v[1][0][1]
    return ret(st, v)


@model('fmt::format', 'fmt::format_inner')
def fmt_format(ip, st, c):
    return ret(st, ip.mat(st, c.args[0]))


@model('Write::write_fmt', 'Write::write_str', 'Write::write_all', 'Write::write_char')
def write_fmt(ip, st, c):
    a = c.args[0]
    if 'fmt::Write' in c.path:
        if a[0] == 'ref':
            ip.write(st, a[1], a[2], cat(ip.val(st, a), ip.mat(st, c.args[1])))
        return ret(st, ok(UNIT))
    # io::Write: the text is appended to the destination, and the write may fail
    txt = ip.mat(st, c.args[1])
    if txt[0] == 'bytes':
        try:
            txt = ('s', bytes(txt[1]).decode())
        except UnicodeDecodeError:
            pass
    hops = 0
    while a[0] == 'ref' and hops < 10:
        v = ip.read(st, a[1], a[2])
        if v[0] == 'ref':
            a = v
        elif v[0] == 'guard' and v[1][0] == 'ref':
            a = v[1]
        else:
            break
        hops += 1
    dst = ip.mat(st, ip.val(st, a))
    res = ip.fresh(st, T('io::write', dst, txt, ('@', c.site)))
    if a[0] == 'ref':
        ip.write(st, a[1], a[2], cat(dst, txt))
    return ret(st, ip.lookup(st, res))


@model('Formatter::write_fmt', 'Formatter::write_str', 'Formatter::pad')
def formatter(ip, st, c):
    a = c.args[0]
    if a[0] == 'ref':
        ip.write(st, a[1], a[2], cat(ip.val(st, a), ip.mat(st, c.args[1])))
    return ret(st, ok(UNIT))


# ------------------------------------------------------------ sequences
def loc_seq(ip, st, a):
    v = ip.val(st, a)
    if v[0] == 'seq':
        return v
    return ('seq', (('each', v),))


@model('Vec::push', 'VecDeque::push_back')
def vec_push(ip, st, c):
    a = c.args[0]
    if a[0] != 'ref':
        return ret(st, UNIT)
    while True:
        v = ip.read(st, a[1], a[2])
        if v[0] == 'ref':
            a = v
        else:
            break
    v = loc_seq(ip, st, a)
    ip.write(st, a[1], a[2], ('seq', v[1] + (('e', c.args[1]),)))
    return ret(st, UNIT)


@model('Vec::pop', 'VecDeque::pop_back')
def vec_pop(ip, st, c):
    a = c.args[0]
    v = ip.val(st, a)
    if v[0] == 'seq' and v[1] and v[1][-1][0] == 'e' and a[0] == 'ref':
        ip.write(st, a[1], a[2], ('seq', v[1][:-1]))
        return ret(st, some(v[1][-1][1]))
    if v[0] == 'seq' and not v[1]:
        return ret(st, NONE)
    return None


@model('VecDeque::pop_front')
def pop_front(ip, st, c):
    a = c.args[0]
    v = ip.val(st, a)
    if v[0] == 'seq' and v[1] and v[1][0][0] == 'e' and a[0] == 'ref':
        ip.write(st, a[1], a[2], ('seq', v[1][1:]))
        return ret(st, some(v[1][0][1]))
    if v[0] == 'seq' and not v[1]:
        return ret(st, NONE)
    if a[0] == 'ref':
        # opaque queue: empty, or some element
        t = ip.mat(st, v)
        s2 = st.copy()
        out = [('ret', st, NONE)]
        e = ip.fresh(s2, T('popped', t if v[0] != 'seq' else T('queue', ('@', c.site)), ('@', c.site)))
        out.append(('ret', s2, some(e)))
        return out
    return None


@model('Vec::append')
def vec_append(ip, st, c):
    a, b = c.args
    if a[0] != 'ref' or b[0] != 'ref':
        return None
    v = loc_seq(ip, st, a)
    w = loc_seq(ip, st, b)
    ip.write(st, a[1], a[2], ('seq', v[1] + w[1]))
    ip.write(st, b[1], b[2], ('seq', ()))
    return ret(st, UNIT)


@model('Vec::clear')
def vec_clear(ip, st, c):
    a = c.args[0]
    ip.write(st, a[1], a[2], ('seq', ()))
    return ret(st, UNIT)


@model('Extend::extend', 'Vec::extend_from_slice')
def extend(ip, st, c):
    a = c.args[0]
    if a[0] != 'ref':
        return None
    base = ip.val(st, a)
    outs = []
    for s, seq in consume(ip, st, c.args[1], c):
        segs = seq[1] if seq[0] == 'seq' else (('each', seq),)
        if c.selfty and 'Path' in c.selfty:
            v = base
            for x in segs:
                v = path_join(v, x[1] if x[0] == 'e' else T('each', x[1]))
            ip.write(s, a[1], a[2], v)
        elif c.selfty and ('TokenStream' in c.selfty):
            return None
        elif c.selfty and 'String' in c.selfty:
            ip.write(s, a[1], a[2], cat(base, *[x[1] for x in segs]))
        else:
            v = loc_seq(ip, s, a)
            ip.write(s, a[1], a[2], ('seq', v[1] + segs))
        outs.append(('ret', s, UNIT))
    return outs


@model('[T]::last', '[T]::first', 'Vec::last', 'Vec::first', '[T]::last_mut', '[T]::first_mut', 'Punctuated::last', 'Punctuated::first')
def first_last(ip, st, c):
    v = ip.val(st, c.args[0])
    last = 'last' in c.short
    if v[0] == 'seq':
        if not v[1]:
            return ret(st, NONE)
        s = v[1][-1 if last else 0]
        if s[0] == 'e':
            if c.short.endswith('_mut') and c.args[0][0] == 'ref':
                i = len(v[1]) - 1 if last else 0
                return ret(st, some(('ref', c.args[0][1], c.args[0][2] + (('ix', ('i', i)),))))
            return ret(st, some(s[1]))
    m = ip.mat(st, v)
    e = ip.is_empty_term(st, m)
    out = []
    for s, b in ip.branch(st, e):
        out.append(('ret', s, NONE if b else some(T('last' if last else 'first', m))))
    return out


@model('[T]::get', 'Vec::get')
def vec_get(ip, st, c):
    v = ip.val(st, c.args[0])
    i = ip.val(st, c.args[1])
    if v[0] == 'seq' and i[0] == 'i' and all(s[0] == 'e' for s in v[1]):
        if i[1] < len(v[1]):
            return ret(st, some(v[1][i[1]][1]))
        return ret(st, NONE)
    return None


@model('Index::index')
def index(ip, st, c):
    v = ip.val(st, c.args[0])
    i = ip.val(st, c.args[1])
    if v[0] == 'seq':
        if i[0] == 'i':
            r = ip.seq_at(v, i[1])
            if r is not None:
                return ret(st, r)
        if i[0] == 'adt' and i[1].endswith('RangeFrom') and i[3][0][0] == 'i':
            n = i[3][0][1]
            if all(s[0] == 'e' for s in v[1][:n]) and n <= len(v[1]):
                return ret(st, ('seq', v[1][n:]))
        if i[0] == 'adt' and i[1].endswith('RangeTo') and i[3][0][0] == 'i':
            n = i[3][0][1]
            if all(s[0] == 'e' for s in v[1][:n]) and n <= len(v[1]):
                return ret(st, ('seq', v[1][:n]))
    return ret(st, T('index', ip.mat(st, v), ip.mat(st, i)))


@model('[T]::contains', 'VecDeque::contains')
def contains(ip, st, c):
    v = ip.mat(st, c.args[0])
    x = ip.mat(st, c.args[1])
    if v[0] == 't' and v[1].startswith('collect:') and 'Set<' in v[1] and len(v) == 3 and v[2][0] == 'seq':
        v = v[2]
    if v[0] == 'seq':
        outs = []
        cur = [st]
        for s in v[1]:
            nxt = []
            for q in cur:
                if s[0] == 'e':
                    t = ip.mk_eq(q, s[1], x)
                else:
                    t = ip.lookup(q, T('contains', s[1], x))
                for q2, b in ip.branch(q, t):
                    if b:
                        outs.append(('ret', q2, TRUE))
                    else:
                        nxt.append(q2)
            cur = nxt
        outs += [('ret', q, FALSE) for q in cur]
        return outs
    return ret(st, ip.lookup(st, T('contains', v, x)))


# ------------------------------------------------------------ iterators
def it_to_seq(ip, v):
    if v[0] == 'it':
        return ('seq', tuple((s[0], s[1]) for s in v[1]))
    return v


def make_iter(ip, st, a, by_mut=False):
    """iterator over the collection value a (maybe a reference)"""
    v = ip.val(st, a)
    if v[0] == 'it':
        return v
    if v[0] == 'seq':
        if by_mut and a[0] == 'ref':
            out = []
            for k, s in enumerate(v[1]):
                if s[0] == 'e':
                    out.append(('e', ('ref', a[1], a[2] + (('ix', ('i', k)),)), ()))
                else:
                    out.append((s[0], s[1], ()))
            return ('it', tuple(out))
        return ('it', tuple((s[0], s[1], ()) for s in v[1]))
    if v[0] == 'adt' and v[1] == OPT:
        return ('it', tuple(('e', x, ()) for x in v[3]))
    if v[0] == 'adt' and v[1] == RES:
        return ('it', tuple(('e', x, ()) for x in v[3]) if v[2] == 0 else ())
    if v[0] == 'adt' and v[1] in ('std::ops::Range', 'std::ops::RangeInclusive'):
        lo, hi = ip.val(st, v[3][0]), ip.val(st, v[3][1])
        if lo[0] == 'i' and hi[0] == 'i':
            n = hi[1] + (1 if v[1].endswith('Inclusive') else 0)
            if n - lo[1] <= 16:
                return ('it', tuple(('e', ('i', k), ()) for k in range(lo[1], n)))
        return ('it', (('each', T('range' if v[1].endswith('Range') else 'rangeinc', ip.mat(st, lo), ip.mat(st, hi)), ()),))
    if by_mut and a[0] == 'ref':
        return ('it', (('eachmut', a, ()),))
    return ('it', (('each', ip.mat(st, v), ()),))


@model('IntoIterator::into_iter', 'Vec::into_iter', '[T]::iter', 'Vec::iter', 'Punctuated::iter', 'Vec::drain', 'Punctuated::into_iter', 'VecDeque::iter')
def into_iter(ip, st, c):
    a = c.args[0]
    by_mut = False
    if c.argty:
        ty = ip.p.types[c.argty[0]]
        by_mut = ty['k'] == 'ref' and bool(ty.get('m'))
    if c.short in ('[T]::iter', 'Vec::iter'):
        by_mut = False
    if ip.val(st, a)[0] == 'it' and a[0] == 'ref':
        return ret(st, a)      # iterating through &mut iterator
    if by_mut and map_type(ip, c):
        r = map_iter_mut(ip, st, a)
        if r is not None:
            return ret(st, r)
    return ret(st, make_iter(ip, st, a, by_mut))


def map_type(ip, c):
    s = ip.p.types[c.argty[0]]['s'] if c.argty else ''
    return any(x in s.split('<')[0] for x in ('map::Map', 'HashMap', 'BTreeMap'))


def map_iter_mut(ip, st, a, values=False):
    """pairs of key and reference to the value"""
    a = _deref_map(ip, st, a)
    v = ip.val(st, a)
    if a[0] != 'ref' or not _is_map(v):
        return None
    return ('it', tuple(('e', _slot(a, i) if values else ('tup', (s[1][1][0], _slot(a, i))), ()) for i, s in enumerate(v[1])))


@model('Map::values_mut', 'HashMap::values_mut', 'BTreeMap::values_mut')
def values_mut(ip, st, c):
    r = map_iter_mut(ip, st, c.args[0], True)
    return None if r is None else ret(st, r)


@model('[T]::iter_mut', 'Vec::iter_mut', 'Map::iter_mut', 'VecDeque::iter_mut', 'HashMap::iter_mut', 'BTreeMap::iter_mut')
def iter_mut(ip, st, c):
    if map_type(ip, c):
        r = map_iter_mut(ip, st, c.args[0])
        if r is not None:
            return ret(st, r)
    return ret(st, make_iter(ip, st, c.args[0], True))


@model('iter::once')
def once(ip, st, c):
    return ret(st, ('it', (('e', c.args[0], ()),)))


@model('iter::empty')
def empty(ip, st, c):
    return ret(st, ('it', ()))


@model('RangeInclusive::new')
def rinc(ip, st, c):
    return ret(st, ('adt', 'std::ops::RangeInclusive', 0, (c.args[0], c.args[1])))


def as_it(ip, st, v):
    w = ip.val(st, v)
    if w[0] == 'it':
        return w
    return make_iter(ip, st, v)


def add_stage(ip, st, c, stage):
    it = as_it(ip, st, c.args[0])
    return ret(st, ('it', tuple((s[0], s[1], s[2] + (stage,)) for s in it[1])))


def _stage(name):
    def f(ip, st, c):
        return add_stage(ip, st, c, (name, c.args[1]))
    return f


for _n in ('map', 'filter', 'filter_map', 'flat_map', 'inspect', 'map_while'):
    MODELS['Iterator::' + _n] = _stage(_n)


@model('Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref', 'Iterator::fuse', 'Iterator::peekable', 'Peekable::peekable')
def same_iter(ip, st, c):
    if c.short.endswith('by_ref'):
        return ret(st, c.args[0])
    return ret(st, as_it(ip, st, c.args[0]))


@model('Iterator::flatten')
def flatten(ip, st, c):
    return add_stage(ip, st, c, ('flat_map', None))


@model('Iterator::chain')
def chain(ip, st, c):
    a, b = as_it(ip, st, c.args[0]), as_it(ip, st, c.args[1])
    return ret(st, ('it', a[1] + b[1]))


def transform(name):
    def f(ip, st, c):
        outs = []
        extra = tuple(ip.mat(st, a) for a in c.args[1:])
        for s, seq in consume(ip, st, c.args[0], c):
            m = ip.mat(s, seq)
            if name == 'rev' and m[0] == 'seq' and all(x[0] == 'e' for x in m[1]):
                outs.append(('ret', s, ('it', tuple(('e', x[1], ()) for x in reversed(m[1])))))
                continue
            if name == 'enumerate' and m[0] == 'seq' and all(x[0] == 'e' for x in m[1]):
                outs.append(('ret', s, ('it', tuple(('e', ('tup', (('i', k), x[1])), ()) for k, x in enumerate(m[1])))))
                continue
            if name in ('skip', 'take') and m[0] == 'seq' and extra and extra[0][0] == 'i' and all(x[0] == 'e' for x in m[1]):
                n = extra[0][1]
                segs = m[1][n:] if name == 'skip' else m[1][:n]
                outs.append(('ret', s, ('it', tuple(('e', x[1], ()) for x in segs))))
                continue
            if name in ('sorted', 'unique', 'dedup', 'sorted_by_key') and m[0] == 'seq' and len(m[1]) <= 1 and all(x[0] == 'e' for x in m[1]):
                outs.append(('ret', s, ('it', tuple((x[0], x[1], ()) for x in m[1]))))
                continue
            r = ordered(ip, s, m, name, c)
            if r is not None:
                outs.append(('ret', s, ('it', tuple(('e', x, ()) for x in r))))
                continue
            src = m[1][0][1] if m[0] == 'seq' and len(m[1]) == 1 and m[1][0][0] == 'each' else m
            outs.append(('ret', s, ('it', (('each', T(name, src, *extra), ()),))))
        return outs
    return f


def _scalar(x):
    return x[1].encode() if x[0] in ('s', 'ch') else x[1] if x[0] == 'i' else None


def ground(x):
    """a value without anything symbolic in it"""
    if x[0] in ('s', 'i', 'b', 'ch', 'unit'):
        return True
    if x[0] == 'adt':
        return all(ground(y) for y in x[3])
    if x[0] == 'tup':
        return all(ground(y) for y in x[1])
    if x[0] == 'seq':
        return all(y[0] == 'e' and ground(y[1]) for y in x[1])
    return False


def ordered(ip, st, m, name, c):
    """an explicit list of constants (or with constant keys), sorted or without repetition; None when it is not that"""
    if m[0] != 'seq' or any(x[0] != 'e' for x in m[1]):
        return None
    xs = [x[1] for x in m[1]]
    if name in ('sorted_by_key', 'unique_by', 'dedup_by_key', 'sorted_by_cached_key'):
        ks = []
        for x in xs:
            rs = [r for k, _, r in ip.apply(st.copy(), c.args[1], [x], c) if k == 'ret']
            if len(rs) != 1:
                return None
            ks.append(_scalar(ip.mat(st, rs[0])))
    elif name in ('dedup_by', 'sorted_by', 'sorted_unstable_by'):
        return _paired(ip, st, xs, name, c)
    elif name in ('unique', 'dedup') and all(ground(ip.mat(st, x)) for x in xs):
        ks = [repr(ip.mat(st, x)) for x in xs]
    elif name in ('sorted', 'sorted_unstable', 'unique', 'dedup'):
        ks = [_scalar(ip.mat(st, x)) for x in xs]
    else:
        return None
    if any(k is None for k in ks) or len({type(k) for k in ks}) > 1:
        return None
    if name.startswith('sorted'):
        return [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i])]
    out, seen = [], []
    for x, k in zip(xs, ks):
        if name.startswith('unique') and k in seen or name.startswith('dedup') and seen[-1:] == [k]:
            continue
        seen.append(k)
        out.append(x)
    return out


def _paired(ip, st, xs, name, c):
    """dedup_by, sorted_by: a closure that compares two elements, which must be decided for every pair looked at"""
    import functools

    class Undecided(Exception):
        pass

    def call(a, b):
        rs = [(k, ip.mat(s, r)) for k, s, r in ip.apply(st.copy(), c.args[1], [a, b], c)]
        if len(rs) != 1 or rs[0][0] != 'ret':
            raise Undecided()
        return rs[0][1]

    def cmp(a, b):
        r = call(a, b)
        if r[0] != 'adt' or r[1].split('::')[-1] != 'Ordering':
            raise Undecided()
        return r[2] - 1
    try:
        if name.startswith('sorted'):
            return sorted(xs, key=functools.cmp_to_key(cmp))
        out = []
        for x in xs:
            if out:
                r = call(out[-1], x)
                if r not in (TRUE, FALSE):
                    return None
                if r == TRUE:
                    continue
            out.append(x)
        return out
    except Undecided:
        return None


for _n in ('rev', 'enumerate', 'skip', 'take', 'step_by', 'cycle'):
    MODELS['Iterator::' + _n] = transform(_n)
for _n in ('sorted', 'sorted_by_key', 'unique', 'dedup', 'sorted_by', 'unique_by', 'dedup_by', 'dedup_by_key', 'sorted_unstable_by', 'sorted_unstable', 'interleave', 'intersperse'):
    MODELS['Itertools::' + _n] = transform(_n)


def _seqfn(ip, st, c, name):
    a = c.args[0]
    if a[0] != 'ref':
        return ret(st, UNIT)
    v = ip.mat(st, a)
    if v[0] == 'seq' and len(v[1]) <= 1 and all(x[0] == 'e' for x in v[1]):
        return ret(st, UNIT)
    r = ordered(ip, st, v, name, c)
    if r is not None:
        ip.write(st, a[1], a[2], ('seq', tuple(('e', x) for x in r)))
        return ret(st, UNIT)
    src = v[1][0][1] if v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'each' else v
    ip.write(st, a[1], a[2], ('seq', (('each', T(name, src, *[ip.mat(st, x) for x in c.args[1:]])),)))
    return ret(st, UNIT)


MODELS['[T]::sort'] = lambda ip, st, c: _seqfn(ip, st, c, 'sorted')
MODELS['[T]::sort_unstable'] = lambda ip, st, c: _seqfn(ip, st, c, 'sorted')
MODELS['Vec::dedup'] = lambda ip, st, c: _seqfn(ip, st, c, 'dedup')
MODELS['[T]::sort_by_key'] = lambda ip, st, c: _seqfn(ip, st, c, 'sorted_by_key')
MODELS['[T]::reverse'] = lambda ip, st, c: _seqfn(ip, st, c, 'rev')

SKIP = ('skip',)


def run_stages(ip, st, v, stages, c):
    """[(state, value | SKIP | ('multi', it))]"""
    cur = [(st, v)]
    for k, (name, f) in enumerate(stages):
        nxt = []
        for s, x in cur:
            if x == SKIP:
                nxt.append((s, x))
                continue
            if name == 'map':
                for kind, s2, r in ip.apply(s, f, [x], c):
                    if kind == 'ret':
                        nxt.append((s2, r))
            elif name in ('filter',):
                for kind, s2, r in ip.apply(s, f, [x], c):
                    if kind != 'ret':
                        continue
                    for s3, b in ip.branch(s2, ip.val(s2, r)):
                        nxt.append((s3, x if b else SKIP))
            elif name in ('filter_map', 'map_while'):
                for kind, s2, r in ip.apply(s, f, [x], c):
                    if kind != 'ret':
                        continue
                    for s3, o in split_option(ip, s2, r):
                        nxt.append((s3, SKIP if o is None else o))
            elif name == 'inspect':
                for kind, s2, r in ip.apply(s, f, [x], c):
                    nxt.append((s2, x))
            elif name == 'flat_map':
                if f is None:
                    outs = [('ret', s, x)]
                else:
                    outs = ip.apply(s, f, [x], c)
                for kind, s2, r in outs:
                    it = make_iter(ip, s2, r)
                    rest = stages[k + 1:]
                    it = ('it', tuple((q[0], q[1], q[2] + rest) for q in it[1]))
                    nxt.append((s2, ('multi', it)))
            elif name in ('take_while', 'skip_while'):
                nxt.append((s, x))
            else:
                nxt.append((s, x))
        cur = nxt
        if name == 'flat_map':
            break
    return cur


def split_option(ip, st, r):
    """[(state, payload or None)]"""
    v = ip.val(st, r)
    if v[0] == 'adt':
        return [(st, v[3][0] if v[2] == 1 else None)]
    m = ip.mat(st, v)
    d = T('discr', m, OPT)
    out = []
    s2 = st.copy()
    if ip.assume(st, d, ('i', 1)):
        out.append((st, T('fld', T('as', m, 'Some'), '0')))
    if ip.assume(s2, d, ('i', 0)):
        out.append((s2, None))
    return out


def elem(src):
    return T('elem', src)


def it_next(ip, st, it, c):
    """[(state, item or None, rest iterator)]"""
    outs = []
    work = [(st, it[1])]
    n = 0
    while work:
        n += 1
        if n > 500:
            break
        s, segs = work.pop(0)
        if not segs:
            outs.append((s, None, ('it', ())))
            continue
        kind, v, stages = segs[0]
        if kind == 'e':
            for s2, r in run_stages(ip, s, v, stages, c):
                if r == SKIP:
                    work.append((s2, segs[1:]))
                elif r[0] == 'multi':
                    work.append((s2, r[1][1] + segs[1:]))
                else:
                    outs.append((s2, r, ('it', segs[1:])))
        else:
            # zero more elements
            s0 = s.copy()
            work.append((s0, segs[1:]))
            if kind == 'eachmut':
                src = ip.mat(s, v)
                e = ('ref', v[1], v[2] + (('m', 'elem', ()),))
            elif kind == 'bag':
                e = None
                for b in v[2:]:
                    if b[0] == 'e':
                        sb = s.copy()
                        for s2, r in run_stages(ip, sb, b[1], stages, c):
                            if r != SKIP and r[0] != 'multi':
                                outs.append((s2, r, ('it', segs)))
                continue
            else:
                e = ip.fresh(s, elem(v))
            for s2, r in run_stages(ip, s, e, stages, c):
                if r == SKIP:
                    # an element was filtered out: same as not having seen it, except for facts
                    continue
                if r[0] == 'multi':
                    work.append((s2, r[1][1] + segs))
                else:
                    outs.append((s2, r, ('it', segs)))
    return outs


@model('Iterator::next', 'Peekable::next', 'Iterator::next_back', 'DoubleEndedIterator::next_back')
def next_(ip, st, c):
    a = c.args[0]
    hops = 0
    while a[0] == 'ref':
        v = ip.read(st, a[1], a[2])
        if v[0] in ('ref', 'guard'):
            a = v if v[0] == 'ref' else v[1]
            hops += 1
            if hops > 10:
                break
            continue
        break
    v = ip.val(st, a)
    if v[0] != 'it':
        # opaque iterator
        t = ip.mat(st, v)
        v = ('it', (('each', t, ()),))
    if c.short.endswith('next_back'):
        if all(s[0] == 'e' for s in v[1]):
            v = ('it', tuple(reversed(v[1])))
            outs = []
            for s, item, rest in it_next(ip, st, v, c):
                if a[0] == 'ref':
                    ip.write(s, a[1], a[2], ('it', tuple(reversed(rest[1]))))
                outs.append(('ret', s, NONE if item is None else some(item)))
            return outs
    outs = []
    for s, item, rest in it_next(ip, st, v, c):
        if a[0] == 'ref':
            ip.write(s, a[1], a[2], rest)
        outs.append(('ret', s, NONE if item is None else some(item)))
    return outs


@model('Peekable::peek')
def peek(ip, st, c):
    a = c.args[0]
    v = ip.val(st, a)
    if v[0] != 'it':
        return None
    if v[1] and v[1][0][0] == 'e' and not v[1][0][2]:
        return ret(st, some(v[1][0][1]))
    if not v[1]:
        return ret(st, NONE)
    if a[0] != 'ref':
        return None
    outs = []
    for s, item, rest in it_next(ip, st, v, c):
        # peeked element is pushed back in front
        if item is None:
            ip.write(s, a[1], a[2], ('it', ()))
            outs.append(('ret', s, NONE))
        else:
            ip.write(s, a[1], a[2], ('it', (('e', item, ()),) + rest[1]))
            outs.append(('ret', s, some(item)))
    return outs


def same_state(a, b):
    return a.mem == b.mem and a.mon == b.mon


def facts_delta(a, b):
    return tuple(sorted(((k, v) for k, v in b.facts.items() if a.facts.get(k) != v), key=repr))


def consume(ip, st, v, c):
    """[(state, seq)] : run the whole iterator"""
    it = as_it(ip, st, v)
    cur = [(st, ())]
    for kind, x, stages in it[1]:
        nxt = []
        for s, acc in cur:
            if kind == 'e':
                for s2, r in run_stages(ip, s, x, stages, c):
                    if r == SKIP:
                        nxt.append((s2, acc))
                    elif r[0] == 'multi':
                        for s3, q in consume(ip, s2, r[1], c):
                            nxt.append((s3, acc + q[1]))
                    else:
                        nxt.append((s2, acc + (('e', r),)))
            elif not stages:
                nxt.append((s, acc + ((kind if kind != 'eachmut' else 'each', x if kind != 'eachmut' else ip.mat(s, x)),)))
            else:
                src = x if kind != 'eachmut' else ip.mat(s, x)
                e = elem(src)
                e2 = x if False else e
                base = s.copy()
                ip.fresh(base, e)
                outs = run_stages(ip, base.copy(), e, stages, c)
                outs2 = []
                pure = True
                for s2, r in outs:
                    if not (s2.mon == base.mon and mem_same(base, s2)):
                        pure = False
                    outs2.append((s2, r))
                if pure:
                    cases = []
                    for s2, r in outs2:
                        if r != SKIP and r[0] == 'multi':
                            q = consume(ip, s2, r[1], c)
                            rr = ('multi',) + tuple(ip.mat(z, w) for z, w in q)
                        elif r == SKIP:
                            rr = SKIP
                        else:
                            rr = ip.mat(s2, r)
                        cases.append((facts_delta(base, s2), rr))
                    cases = merge_cases(cases)
                    if cases and all(r == e for _, r in cases):
                        nxt.append((s, acc + (('each', src),)))
                    elif len(cases) == 1 and cases[0][1] != SKIP and cases[0][1][0] != 'multi':
                        nxt.append((s, acc + (('each', T('compr', src, cases[0][1])),)))
                    elif cases and all(r == SKIP for _, r in cases):
                        nxt.append((s, acc))
                    else:
                        nxt.append((s, acc + (('each', T('compr', src, ('cases',) + tuple(cases))),)))
                else:
                    # effects: zero, one or several elements
                    nxt.append((s.copy(), acc))
                    for s2, r in outs2:
                        if r == SKIP:
                            nxt.append((s2, acc))
                        elif r[0] == 'multi':
                            nxt.append((s2, acc + (('each', T('flat', ip.mat(s2, r[1]))),)))
                        else:
                            nxt.append((s2, acc + (('each', T('compr', src, ip.mat(s2, r))),)))
        cur = dedupe(nxt)
    return [(s, ('seq', acc)) for s, acc in cur]


def mem_same(a, b):
    """memory unchanged apart from dead closure environments"""
    for k, v in b.mem.items():
        if a.mem.get(k) != v and k[0] not in ('E', 'H'):
            return False
    return True


def dedupe(xs):
    seen = set()
    out = []
    for s, a in xs:
        k = (s.key(), a)
        if k not in seen:
            seen.add(k)
            out.append((s, a))
    return out


def merge_cases(cases):
    out = []
    for f, r in cases:
        if (f, r) not in out:
            out.append((f, r))
    vals = {r for _, r in out}
    if len(vals) == 1 and len(out) > 1:
        return [((), out[0][1])]
    return sorted(out, key=repr)


@model('Iterator::collect', 'Itertools::collect_vec', 'FromIterator::from_iter', 'Iterator::count', 'Iterator::sum', 'Iterator::max', 'Iterator::min',
       'Iterator::last', 'Itertools::counts', 'Iterator::product', 'Itertools::all_unique')
def collect(ip, st, c):
    dt = ip.p.types[c.destty] if c.destty is not None else {'s': '', 'k': ''}
    outs = []
    name = c.short.split('::')[1]
    for s, seq in consume(ip, st, c.args[0], c):
        if dt['k'] == 'adt' and dt.get('p') == RES and name == 'collect':
            # Result<Vec<..>>: split every known element; opaque ones may fail
            cur = [(s, ())]
            for x in seq[1]:
                nxt = []
                for q, acc in cur:
                    if x[0] == 'e':
                        v = ip.val(q, x[1])
                        if v[0] == 'adt':
                            if v[2] == 0:
                                nxt.append((q, acc + (('e', v[3][0]),)))
                            else:
                                outs.append(('ret', q, v))
                            continue
                    t = T('collect_result', ip.mat(q, x[1]))
                    d = T('discr', t, RES)
                    q2 = q.copy()
                    if ip.assume(q, d, ('i', 0)):
                        nxt.append((q, acc + (('each', T('oks', ip.mat(q, x[1]))),)))
                    if ip.assume(q2, d, ('i', 1)):
                        outs.append(('ret', q2, err(T('fld', T('as', t, 'Err'), '0'))))
                cur = nxt
            outs += [('ret', q, ok(('seq', acc))) for q, acc in cur]
            continue
        if dt['k'] == 'adt' and (dt.get('p') in ('std::vec::Vec', 'std::collections::VecDeque') or dt['s'].startswith('[')) or name == 'collect_vec':
            outs.append(('ret', s, seq))
            continue
        if dt['s'] == 'std::string::String' and name == 'collect':
            m = ip.mat(s, seq)
            if all(x[0] == 'e' for x in m[1]):
                outs.append(('ret', s, cat(*[x[1] for x in m[1]]) if m[1] else ('s', '')))
            else:
                outs.append(('ret', s, cat(*[x[1] if x[0] == 'e' else T('each', x[1]) for x in m[1]])))
            continue
        m = ip.mat(s, seq)
        if name == 'collect' and dt.get('p') == 'std::collections::BTreeSet' and all(x[0] == 'e' and x[1][0] in ('s', 'i', 'ch') for x in m[1]):
            outs.append(('ret', s, ('seq', tuple(('e', y) for y in sorted(set(x[1] for x in m[1]))))))
            continue
        if name == 'count' and all(x[0] == 'e' for x in m[1]):
            outs.append(('ret', s, ('i', len(m[1]))))
            continue
        extra = tuple(ip.mat(s, a) for a in c.args[1:])
        outs.append(('ret', s, T(name + ':' + dt['s'] if name == 'collect' else name, m, *extra)))
    return outs


def search(ip, st, c, on_true, on_end, mode):
    """any / all / find / position / find_map over an iterator"""
    it = as_it(ip, st, c.args[0])
    f = c.args[1]
    outs = []
    cur = [(st, it)]
    n = 0
    while cur:
        n += 1
        if n > 300:
            break
        s, i = cur.pop(0)
        if not i[1]:
            outs.append(('ret', s, on_end))
            continue
        kind, x, stages = i[1][0]
        rest = ('it', i[1][1:])
        if kind == 'e':
            for s2, r in run_stages(ip, s, x, stages, c):
                if r == SKIP:
                    cur.append((s2, rest))
                    continue
                if r[0] == 'multi':
                    cur.append((s2, ('it', r[1][1] + rest[1])))
                    continue
                for kd, s3, b in ip.apply(s2, f, [r], c):
                    if kd != 'ret':
                        continue
                    hit(ip, s3, b, r, mode, on_true, outs, cur, rest, c)
        else:
            src = x if kind != 'eachmut' else ip.mat(s, x)
            s0 = s.copy()
            ip.fresh(s, elem(src))
            none_ok = True
            conds = []
            for s2, r in run_stages(ip, s, elem(src), stages, c):
                if r == SKIP:
                    continue
                if r[0] == 'multi':
                    conds.append(('flat', ip.mat(s2, r[1])))
                    b = s2.copy()
                    if mode in ('any', 'all'):
                        outs.append(('ret', b, on_true))
                    else:
                        outs.append(('ret', b, some(T('found', ip.mat(s2, r[1])))))
                    continue
                for kd, s3, b in ip.apply(s2, f, [r], c):
                    if kd != 'ret':
                        continue
                    sink = []
                    hit(ip, s3, b, r, mode, on_true, outs, sink, rest, c, conds=conds, base=s0)
            key = T('none_of', src, mode, *sorted(conds, key=repr))
            cur_f = s0.facts.get(key)
            s0.facts[key] = TRUE
            cur.append((s0, rest))
    return outs


def hit(ip, s3, b, r, mode, on_true, outs, cur, rest, c, conds=None, base=None):
    if mode == 'find_map':
        for s4, o in split_option(ip, s3, b):
            if o is None:
                cur.append((s4, rest))
            else:
                if conds is not None:
                    conds.append(facts_delta(base, s4))
                outs.append(('ret', s4, some(o)))
        return
    for s4, t in ip.branch(s3, ip.val(s3, b)):
        want = t if mode != 'all' else not t
        if want:
            if conds is not None:
                conds.append(facts_delta(base, s4))
            if mode in ('any', 'all'):
                outs.append(('ret', s4, on_true))
            elif mode == 'find':
                outs.append(('ret', s4, some(r)))
            elif mode[1] is not None:
                outs.append(('ret', s4, some(('i', mode[1] - len(rest[1]) - 1))))
            else:
                outs.append(('ret', s4, some(T('pos', ip.mat(s4, r)))))
        else:
            cur.append((s4, rest))


MODELS['Iterator::any'] = lambda ip, st, c: search(ip, st, c, TRUE, FALSE, 'any')
MODELS['Iterator::all'] = lambda ip, st, c: search(ip, st, c, FALSE, TRUE, 'all')
MODELS['Iterator::find'] = lambda ip, st, c: search(ip, st, c, None, NONE, 'find')


@model('Iterator::position')
def position(ip, st, c):
    it = as_it(ip, st, c.args[0])
    n = len(it[1]) if all(k == 'e' and not stages for k, x, stages in it[1]) else None
    return search(ip, st, c, None, NONE, ('position', n))


MODELS['Iterator::find_map'] = lambda ip, st, c: search(ip, st, c, None, NONE, 'find_map')


def each_call(ip, st, c, f, wrap_result=False):
    it = as_it(ip, st, c.args[0])
    cur = [st]
    outs = []
    for kind, x, stages in it[1]:
        reps = 1 if kind == 'e' else 2
        done = [] if kind == 'e' else list(q.copy() for q in cur)
        for _ in range(reps):
            nxt = []
            for s in cur:
                if kind == 'eachmut':
                    e = ('ref', x[1], x[2] + (('m', 'elem', ()),))
                elif kind == 'e':
                    e = x
                else:
                    e = ip.fresh(s, elem(x))
                nxt += each_one(ip, s, e, stages, c, f, wrap_result, outs)
            cur = [s for s, _ in dedupe([(q, 0) for q in nxt])]
            done += [q.copy() for q in cur] if kind != 'e' else []
        if kind != 'e':
            cur = [s for s, _ in dedupe([(q, 0) for q in done])]
    outs += [('ret', s, ok(UNIT) if wrap_result else UNIT) for s in cur]
    return outs


def each_one(ip, s, e, stages, c, f, wrap_result, outs):
    """states after one element (which flat_map may turn into several); what leaves early is added to outs"""
    nxt = []
    for s2, r in run_stages(ip, s, e, stages, c):
        if r == SKIP:
            nxt.append(s2)
            continue
        if r[0] == 'multi':
            if all(q[0] == 'e' for q in r[1][1]):
                cur = [s2]
                for q in r[1][1]:
                    cur = [z for y in cur for z in each_one(ip, y, q[1], q[2], c, f, wrap_result, outs)]
                nxt += cur
                continue
            r = T('flat', ip.mat(s2, r[1]))
        for kd, s3, b in ip.apply(s2, f, [r], c):
            if kd != 'ret':
                outs.append((kd, s3, b))
                continue
            if wrap_result:
                v = ip.val(s3, b)
                if v[0] == 'adt' and v[2] == 1:
                    outs.append(('ret', s3, v))
                    continue
                if v[0] != 'adt':
                    d = T('discr', ip.mat(s3, v), RES)
                    s4 = s3.copy()
                    if ip.assume(s4, d, ('i', 1)):
                        outs.append(('ret', s4, v))
                    if not ip.assume(s3, d, ('i', 0)):
                        continue
            nxt.append(s3)
    return nxt


MODELS['Iterator::for_each'] = lambda ip, st, c: each_call(ip, st, c, c.args[1])
MODELS['Iterator::try_for_each'] = lambda ip, st, c: each_call(ip, st, c, c.args[1], True)


@model('Iterator::fold')
def fold(ip, st, c):
    it = as_it(ip, st, c.args[0])
    cur = [(st, c.args[1])]
    for kind, x, stages in it[1]:
        nxt = []
        for s, acc in cur:
            if kind != 'e':
                nxt.append((s.copy(), acc))
                e = ip.fresh(s, elem(x))
            else:
                e = x
            for s2, r in run_stages(ip, s, e, stages, c):
                if r == SKIP or r[0] == 'multi':
                    nxt.append((s2, acc))
                    continue
                for kd, s3, b in ip.apply(s2, c.args[2], [acc, r], c):
                    if kd == 'ret':
                        nxt.append((s3, b))
        cur = nxt
    return [('ret', s, v) for s, v in cur]


@model('Vec::retain')
def retain(ip, st, c):
    a = c.args[0]
    if a[0] != 'ref':
        return None
    v = loc_seq(ip, st, a)
    c2args = c.args
    it = ('it', tuple((s[0], s[1], (('filter', c.args[1]),)) for s in v[1]))
    outs = []
    for s, seq in consume(ip, st, it, c):
        ip.write(s, a[1], a[2], seq)
        outs.append(('ret', s, UNIT))
    return outs


# str sources
def _strsplit(name):
    def f(ip, st, c):
        a = [ip.mat(st, x) for x in c.args]
        if all(is_const(x) for x in a) and a[0][0] == 's':
            s = a[0][1]
            if name == 'lines':
                parts = s.split('\n')
                if parts and parts[-1] == '':
                    parts.pop()
                parts = [p[:-1] if p.endswith('\r') else p for p in parts]
            elif name == 'split' and a[1][0] in ('s', 'ch'):
                parts = s.split(a[1][1])
            elif name == 'components':
                parts = comps(s)
            elif name == 'char_indices':
                off = 0
                out = []
                for x in s:
                    out.append(('e', ('tup', (('i', off), ('ch', x))), ()))
                    off += len(x.encode())
                return ret(st, ('it', tuple(out)))
            elif name == 'split_whitespace':
                parts = s.split()
            elif name == 'chars':
                return ret(st, ('it', tuple(('e', ('ch', x), ()) for x in s)))
            else:
                parts = None
            if parts is not None:
                return ret(st, ('it', tuple(('e', ('s', p), ()) for p in parts)))
        return ret(st, ('it', (('each', T(name, *a), ()),)))
    return f


for _n in ('lines', 'split', 'chars', 'split_whitespace', 'char_indices', 'split_terminator', 'rsplit', 'splitn', 'bytes'):
    MODELS['str::' + _n] = _strsplit(_n)
MODELS['Utf8Path::components'] = _strsplit('components')


@model('str::split_once', 'str::rsplit_once', 'str::strip_prefix', 'str::strip_suffix')
def str_cut(ip, st, c):
    a, b = [ip.mat(st, x) for x in c.args[:2]]
    if a[0] == 's' and b[0] in ('s', 'ch'):
        s, d = a[1], b[1]
        n = c.short.split('::')[1]
        if n == 'strip_prefix':
            return ret(st, some(('s', s[len(d):])) if s.startswith(d) else NONE)
        if n == 'strip_suffix':
            return ret(st, some(('s', s[:len(s) - len(d)])) if s.endswith(d) else NONE)
        if d not in s:
            return ret(st, NONE)
        x, y = s.split(d, 1) if n == 'split_once' else s.rsplit(d, 1)
        return ret(st, some(('tup', (('s', x), ('s', y)))))
    return None


MODELS['Path::components'] = _strsplit('components')


# ------------------------------------------------------------ sync / threads
@model('Mutex::new', 'RwLock::new')
def mutex_new(ip, st, c):
    return ret(st, ('adt', 'std::sync::Mutex', 0, (c.args[0],)))


def mutex_loc(ip, st, a):
    """location of the protected value"""
    while a[0] == 'ref':
        v = ip.read(st, a[1], a[2])
        if v[0] == 'ref':
            a = v
        else:
            break
    v = ip.val(st, a)
    if v[0] == 'adt' and a[0] == 'ref':
        return ('ref', a[1], a[2] + (('f', 0, '$inner'),))
    t = ip.mat(st, v)
    loc = ('M', t)
    if loc not in st.mem:
        st.mem[loc] = T('inner', t)
    return ('ref', loc, ())


@model('Mutex::lock', 'RwLock::write', 'RwLock::read')
def lock(ip, st, c):
    r = mutex_loc(ip, st, c.args[0])
    return ret(st, ok(('guard', r)))


@model('Mutex::try_lock')
def try_lock(ip, st, c):
    r = mutex_loc(ip, st, c.args[0])
    return [('ret', st, ok(('guard', r))), ('ret', st.copy(), err(T('would_block')))]


@model('Mutex::into_inner', 'Mutex::get_mut')
def into_inner(ip, st, c):
    v = ip.val(st, c.args[0])
    if v[0] == 'adt':
        if c.short.endswith('get_mut') and c.args[0][0] == 'ref':
            return ret(st, ok(('ref', c.args[0][1], c.args[0][2] + (('f', 0, '$inner'),))))
        return ret(st, ok(v[3][0]))
    t = ip.mat(st, v)
    return ret(st, ok(st.mem.get(('M', t), T('inner', t))))


@model('thread::scope')
def scope(ip, st, c):
    return ip.apply(st, c.args[0], [T('scope')], c)


@model('Scope::spawn', 'thread::spawn')
def spawn(ip, st, c):
    f = c.args[-1]
    return [(k, s, v if k != 'ret' else ('adt', '$handle', 0, (v,))) for k, s, v in ip.apply(st, f, [], c)]


@model('ScopedJoinHandle::join', 'JoinHandle::join')
def join(ip, st, c):
    v = ip.val(st, c.args[0])
    if v[0] == 'adt' and v[1] == '$handle':
        return ret(st, ok(v[3][0]))
    return None


@model('panic::catch_unwind')
def catch_unwind(ip, st, c):
    return [(k, s, ok(v) if k == 'ret' else v) for k, s, v in ip.apply(st, c.args[0], [], c)]


@model('mem::replace', 'Option::replace_')
def replace(ip, st, c):
    a = c.args[0]
    v = ip.val(st, a)
    if a[0] == 'ref':
        ip.write(st, a[1], a[2], c.args[1])
    return ret(st, v)


@model('mem::take')
def take(ip, st, c):
    a = c.args[0]
    v = ip.val(st, a)
    d = default(ip, st, c)[0][2]
    if a[0] == 'ref':
        ip.write(st, a[1], a[2], d)
    return ret(st, v)


@model('mem::swap')
def swap(ip, st, c):
    a, b = c.args
    va, vb = ip.val(st, a), ip.val(st, b)
    if a[0] == 'ref' and b[0] == 'ref':
        ip.write(st, a[1], a[2], vb)
        ip.write(st, b[1], b[2], va)
    return ret(st, UNIT)


@model('mem::drop')
def mem_drop(ip, st, c):
    ip.mon.on_drop(st, ip.p.types[c.argty[0]]['s'] if c.argty else '', c.args[0], c.span, c.caller)
    return ret(st, UNIT)


@model('process::exit')
def exit_(ip, st, c):
    return [('exit', st, ip.mat(st, c.args[0]))]


@model('panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'panicking::unreachable_default_msg', 'panic::resume_unwind', 'option::unwrap_failed',
       'option::expect_failed', 'result::unwrap_failed', 'panicking::panic_display', 'panicking::unreachable_display', 'panicking::panic_explicit')
def panic(ip, st, c):
    return [('panic', st, UNIT)]


# ------------------------------------------------------------ quote / token streams
PUNCT = {'add': '+', 'add_eq': '+=', 'and': '&', 'and_and': '&&', 'and_eq': '&=', 'at': '@', 'bang': '!', 'caret': '^', 'caret_eq': '^=', 'colon': ':',
         'colon2': '::', 'comma': ',', 'div': '/', 'div_eq': '/=', 'dot': '.', 'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=', 'eq': '=', 'eq_eq': '==',
         'ge': '>=', 'gt': '>', 'le': '<=', 'lt': '<', 'mul_eq': '*=', 'ne': '!=', 'or': '|', 'or_eq': '|=', 'or_or': '||', 'pound': '#', 'question': '?',
         'rarrow': '->', 'larrow': '<-', 'rem': '%', 'rem_eq': '%=', 'fat_arrow': '=>', 'semi': ';', 'shl': '<<', 'shl_eq': '<<=', 'shr': '>>', 'shr_eq': '>>=',
         'star': '*', 'sub': '-', 'sub_eq': '-=', 'underscore': '_'}


def tok_append(ip, st, a, items):
    cur = ip.val(st, a)
    if cur[0] != 'toks':
        cur = ('toks', (('tok', cur),))
    ip.write(st, a[1], a[2], ('toks', cur[1] + tuple(items)))


def _punct(sym):
    def f(ip, st, c):
        tok_append(ip, st, c.args[0], [('p', sym)])
        return ret(st, UNIT)
    return f


for _n, _s in PUNCT.items():
    MODELS['__private::push_' + _n] = _punct(_s)


@model('__private::push_ident')
def push_ident(ip, st, c):
    v = ip.mat(st, c.args[1])
    tok_append(ip, st, c.args[0], [('id', v[1] if v[0] == 's' else v)])
    return ret(st, UNIT)


@model('__private::parse')
def q_parse(ip, st, c):
    v = ip.mat(st, c.args[1])
    tok_append(ip, st, c.args[0], [('lit', v[1] if v[0] == 's' else v)])
    return ret(st, UNIT)


@model('__private::push_group')
def push_group(ip, st, c):
    d = ip.mat(st, c.args[1])
    dn = ip.p.variant_name(d[1], d[2]) if d[0] == 'adt' else str(d)
    inner = ip.mat(st, c.args[2])
    tok_append(ip, st, c.args[0], [('g', dn, inner[1] if inner[0] == 'toks' else (('tok', inner),))])
    return ret(st, UNIT)


@model('ToTokens::to_tokens')
def to_tokens(ip, st, c):
    v = ip.mat(st, c.args[0])
    if v[0] == 'adt' and v[1].endswith('::RepInterp'):
        v = v[3][0]
    tok_append(ip, st, c.args[1], list(v[1]) if v[0] == 'toks' else [('tok', v)])
    return ret(st, UNIT)


@model('ToTokens::to_token_stream', 'ToTokens::into_token_stream')
def to_token_stream(ip, st, c):
    v = ip.mat(st, c.args[0])
    return ret(st, v if v[0] == 'toks' else ('toks', (('tok', v),)))


@model('Child::try_wait', 'Child::wait', 'Child::kill')
def child_poll(ip, st, c):
    """these act on the process, not on the handle: the handle keeps its identity"""
    t = ip.fresh(st, T(c.short, ip.mat(st, c.args[0])) + (('@', c.site),))
    return [('ret', st, ip.lookup(st, t))]


# ------------------------------------------------------------ maps: sequences of (key, value) pairs
MODELS['HashSet::contains'] = MODELS['BTreeSet::contains'] = contains
MAPV = ('f', 1, '1', None)


def _is_map(v):
    return v[0] == 'seq' and all(s[0] == 'e' and s[1][0] == 'tup' and len(s[1][1]) == 2 for s in v[1])


@model('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity', 'HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def map_new(ip, st, c):
    return ret(st, ('seq', ()))


def map_find(ip, st, a, key):
    """[(state, index or None)], or None when the map is not explicit"""
    v = ip.val(st, a)
    if not _is_map(v) or a[0] != 'ref':
        return None
    out = []
    cur = [st]
    for i, s in enumerate(v[1]):
        nxt = []
        for q in cur:
            for q2, b in ip.branch(q, ip.mk_eq(q, ip.mat(q, s[1][1][0]), key)):
                if b:
                    out.append((q2, i))
                else:
                    nxt.append(q2)
        cur = nxt
    return out + [(q, None) for q in cur]


def _deref_map(ip, st, a):
    while a[0] == 'ref':
        v = ip.read(st, a[1], a[2])
        if v[0] != 'ref':
            break
        a = v
    return a


def _slot(a, i):
    return ('ref', a[1], a[2] + (('ix', ('i', i)), MAPV))


@model('HashMap::entry', 'BTreeMap::entry')
def map_entry(ip, st, c):
    a = _deref_map(ip, st, c.args[0])
    r = map_find(ip, st, a, ip.mat(st, c.args[1]))
    if r is None:
        return None
    en = 'std::collections::%s::Entry' % ('hash_map' if c.short.startswith('Hash') else 'btree_map')
    adt = ip.p.adts.get(en)
    vs = [v[0] for v in adt['variants']] if adt else ['Occupied', 'Vacant']
    out = []
    for q, i in r:
        if i is None:
            out.append(('ret', q, ('adt', en, vs.index('Vacant'), (('tup', (a, c.args[1])),))))
        else:
            out.append(('ret', q, ('adt', en, vs.index('Occupied'), (('tup', (_slot(a, i), c.args[1])),))))
    return out


def map_add(ip, st, a, key, val):
    v = ip.val(st, a)
    ip.write(st, a[1], a[2], ('seq', v[1] + (('e', ('tup', (key, val))),)))
    return _slot(a, len(v[1]))


@model('VacantEntry::insert')
def vacant_insert(ip, st, c):
    e = ip.val(st, c.args[0])
    if e[0] != 'tup':
        return None
    return ret(st, map_add(ip, st, e[1][0], e[1][1], c.args[1]))


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def occ_get(ip, st, c):
    e = ip.val(st, c.args[0])
    if e[0] != 'tup':
        return None
    return ret(st, e[1][0])


@model('OccupiedEntry::insert')
def occ_insert(ip, st, c):
    e = ip.val(st, c.args[0])
    if e[0] != 'tup':
        return None
    old = ip.val(st, e[1][0])
    ip.write(st, e[1][0][1], e[1][0][2], c.args[1])
    return ret(st, old)


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def or_insert(ip, st, c):
    e = ip.val(st, c.args[0])
    if e[0] != 'adt' or e[3][0][0] != 'tup':
        return None
    vn = ip.p.variant_name(e[1], e[2])
    if vn == 'Occupied':
        return ret(st, e[3][0][1][0])
    m, key = e[3][0][1]
    if c.short == 'Entry::or_insert_with':
        out = []
        for k, q, v in ip.apply(st, c.args[1], [], c):
            out.append((k, q, map_add(ip, q, m, key, v)) if k == 'ret' else (k, q, v))
        return out
    if c.short == 'Entry::or_default':
        s = ip.p.types[c.destty]['s'] if c.destty is not None else ''
        d = ('seq', ()) if 'Vec' in s or 'Hash' in s or 'BTree' in s else ('i', 0) if s.endswith(('usize', 'u64', 'u32', 'i32')) else T('default', s)
        return ret(st, map_add(ip, st, m, key, d))
    return ret(st, map_add(ip, st, m, key, c.args[1]))


@model('Entry::and_modify')
def and_modify(ip, st, c):
    e = ip.val(st, c.args[0])
    if e[0] != 'adt' or e[3][0][0] != 'tup':
        return None
    if ip.p.variant_name(e[1], e[2]) != 'Occupied':
        return ret(st, e)
    return [(k, q, e if k == 'ret' else v) for k, q, v in ip.apply(st, c.args[1], [e[3][0][1][0]], c)]


@model('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut', 'HashMap::contains_key', 'BTreeMap::contains_key',
       'Map::get', 'Map::get_mut', 'Map::contains_key')
def map_get(ip, st, c):
    a = _deref_map(ip, st, c.args[0])
    r = map_find(ip, st, a, ip.mat(st, c.args[1]))
    if r is None:
        return None
    has = c.short.endswith('contains_key')
    return [('ret', q, (FALSE if has else NONE) if i is None else (TRUE if has else some(_slot(a, i)))) for q, i in r]


@model('HashMap::insert', 'BTreeMap::insert', 'Map::insert')
def map_insert(ip, st, c):
    a = _deref_map(ip, st, c.args[0])
    r = map_find(ip, st, a, ip.mat(st, c.args[1]))
    if r is None:
        return None
    out = []
    for q, i in r:
        if i is None:
            map_add(ip, q, a, c.args[1], c.args[2])
            out.append(('ret', q, NONE))
        else:
            s = _slot(a, i)
            old = ip.val(q, s)
            ip.write(q, s[1], s[2], c.args[2])
            out.append(('ret', q, some(old)))
    return out


# ------------------------------------------------------------ toml values given explicitly
TOMLV = 'toml::Value'


def _toml_case(name, mut):
    def f(ip, st, c):
        a = c.args[0]
        while a[0] == 'ref' and ip.read(st, a[1], a[2])[0] == 'ref':
            a = ip.read(st, a[1], a[2])
        v = ip.val(st, a)
        if v[0] != 'adt' or v[1] != TOMLV or a[0] != 'ref':
            return None
        n = ip.p.variant_name(TOMLV, v[2])
        if n != name:
            return ret(st, NONE)
        return ret(st, some(('ref', a[1], a[2] + (('dc', v[2], n), ('f', 0, '0', None)))))
    return f


for _k, _n in (('table', 'Table'), ('array', 'Array'), ('str', 'String'), ('bool', 'Boolean'), ('integer', 'Integer')):
    MODELS['Value::as_' + _k] = _toml_case(_n, False)
    MODELS['Value::as_%s_mut' % _k] = _toml_case(_n, True)


def _toml_is(name):
    def f(ip, st, c):
        v = ip.val(st, c.args[0])
        if v[0] != 'adt' or v[1] != TOMLV:
            return None
        return ret(st, TRUE if ip.p.variant_name(TOMLV, v[2]) == name else FALSE)
    return f


for _k, _n in (('table', 'Table'), ('array', 'Array'), ('str', 'String'), ('bool', 'Boolean'), ('integer', 'Integer')):
    MODELS['Value::is_' + _k] = _toml_is(_n)


@model('Value::get', 'Value::get_mut')
def toml_get(ip, st, c):
    a = c.args[0]
    while a[0] == 'ref' and ip.read(st, a[1], a[2])[0] == 'ref':
        a = ip.read(st, a[1], a[2])
    v = ip.val(st, a)
    if v[0] != 'adt' or v[1] != TOMLV or a[0] != 'ref':
        return None
    n = ip.p.variant_name(TOMLV, v[2])
    inner = ('ref', a[1], a[2] + (('dc', v[2], n), ('f', 0, '0', None)))
    if n == 'Table':
        r = map_find(ip, st, inner, ip.mat(st, c.args[1]))
        if r is None:
            return None
        return [('ret', q, NONE if i is None else some(_slot(inner, i))) for q, i in r]
    if n == 'Array':
        i = ip.mat(st, c.args[1])
        if i[0] == 'i' and v[3][0][0] == 'seq':
            return ret(st, some(('ref', inner[1], inner[2] + (('ix', i),))) if i[1] < len(v[3][0][1]) else NONE)
        return None
    return ret(st, NONE)


@model('HashSet::insert', 'BTreeSet::insert')
def set_insert(ip, st, c):
    a = _deref_map(ip, st, c.args[0])
    v = ip.val(st, a)
    if v[0] != 'seq' or a[0] != 'ref' or any(s[0] != 'e' for s in v[1]):
        return None
    out = []
    for k, q, b in contains(ip, st, c):
        if b == FALSE:
            w = ip.val(q, a)
            ip.write(q, a[1], a[2], ('seq', w[1] + (('e', c.args[1]),)))
        out.append((k, q, TRUE if b == FALSE else FALSE if b == TRUE else T('not', b)))
    return out


# ------------------------------------------------------------ syn
# an attribute given explicitly is Attribute{meta: Meta::..}, where the arguments of a list
# are a sequence of Meta values in MetaList.tokens
def syn_path(p, v):
    """names of the segments of an explicit syn path, or None"""
    if v[0] == 'adt' and v[1] == 'syn::Path':
        a = p.adts['syn::Path']['variants'][0][2]
        segs = v[3][a.index('segments')]
        if segs[0] == 'seq' and all(x[0] == 'e' for x in segs[1]):
            out = []
            for x in segs[1]:
                s = x[1]
                if s[0] != 'adt' or s[1] != 'syn::PathSegment':
                    return None
                i = s[3][p.adts['syn::PathSegment']['variants'][0][2].index('ident')]
                if i[0] != 's':
                    return None
                out.append(i[1])
            return out
    return None


def meta_parts(p, v):
    """(kind, path value, arguments) of an explicit Meta"""
    if v[0] != 'adt' or v[1] != 'syn::Meta':
        return None
    k = p.variant_name('syn::Meta', v[2])
    x = v[3][0]
    if k == 'Path':
        return k, x, None
    if x[0] != 'adt':
        return None
    names = p.adts[x[1]]['variants'][0][2]
    return k, x[3][names.index('path')], x[3][names.index('tokens')] if 'tokens' in names else None


def attr_meta(ip, st, a):
    v = ip.mat(st, a)
    if v[0] == 'adt' and v[1] == 'syn::Attribute':
        return meta_parts(ip.p, v[3][ip.p.adts['syn::Attribute']['variants'][0][2].index('meta')])
    return None


@model('Attribute::path')
def attr_path(ip, st, c):
    m = attr_meta(ip, st, c.args[0])
    return ret(st, m[1]) if m else None


@model('Meta::path')
def meta_path(ip, st, c):
    m = meta_parts(ip.p, ip.mat(st, c.args[0]))
    return ret(st, m[1]) if m else None


@model('Path::is_ident')
def path_is_ident(ip, st, c):
    ss = syn_path(ip.p, ip.mat(st, c.args[0]))
    i = ip.mat(st, c.args[1])
    if ss is None or i[0] != 's':
        return None
    return ret(st, ('b', ss == [i[1]]))


@model('Path::get_ident')
def path_get_ident(ip, st, c):
    ss = syn_path(ip.p, ip.mat(st, c.args[0]))
    if ss is None:
        return None
    return ret(st, some(('s', ss[0])) if len(ss) == 1 else NONE)


@model('Attribute::parse_nested_meta')
def parse_nested_meta(ip, st, c):
    """calls the closure for each argument; an argument with a value or parentheses that the closure does not read is an error"""
    m = attr_meta(ip, st, c.args[0])
    if not m:
        return None
    if m[0] != 'List':
        return ret(st, err(T('syn_error')))
    if m[2] is None or m[2][0] != 'seq':
        return None
    return nested_items(ip, st, c, [x[1] for x in m[2][1]])


@model('ParseNestedMeta::parse_nested_meta')
def parse_nested_inner(ip, st, c):
    pm = ip.mat(st, c.args[0])
    items = [x[2][2] for x in (pm[3] if pm[0] == 'adt' else ()) if x[:2] == ('t', 'input') and x[2][:2] == ('t', 'nested')]
    if len(items) != 1:
        return None
    kind, path, args = meta_parts(ip.p, items[0])
    if kind != 'List':
        return ret(st, err(T('syn_error')))
    if args is None or args[0] != 'seq':
        return None
    st.facts[T('consumed', items[0])] = TRUE
    return nested_items(ip, st, c, [x[1] for x in args[1]])


def nested_items(ip, st, c, items):
    work, done = [(st, 0)], []
    while work:
        s, k = work.pop()
        if k == len(items):
            done.append(('ret', s, ok(UNIT)))
            continue
        kind, path, args = meta_parts(ip.p, items[k])
        names = ip.p.adts['syn::meta::ParseNestedMeta']['variants'][0][2]
        pm = ('adt', 'syn::meta::ParseNestedMeta', 0, tuple(path if n == 'path' else T('input', T('nested', items[k])) for n in names))
        for kd, s2, r in ip.apply(s, c.args[1], [pm], c):
            if kd != 'ret':
                done.append((kd, s2, r))
                continue
            r = ip.mat(s2, r)
            if r[0] == 'adt' and r[1] == RES and r[2] == 1:
                done.append(('ret', s2, r))
            elif r[0] == 'adt' and r[1] == RES:
                if kind == 'Path' or s2.facts.get(T('consumed', items[k])) == TRUE:
                    work.append((s2, k + 1))
                else:
                    done.append(('ret', s2, err(T('syn_error'))))
            else:
                return None
    return done


@model('Attribute::parse_args_with')
def parse_args_with(ip, st, c):
    """arguments parsed as a list of Meta"""
    m = attr_meta(ip, st, c.args[0])
    dt = ip.p.types[c.destty]['s'] if c.destty is not None else ''
    if not m or 'Punctuated<syn::Meta' not in dt.replace(' ', ''):
        return None
    if m[0] != 'List':
        return ret(st, err(T('syn_error')))
    if m[2] is None or m[2][0] != 'seq':
        return None
    return ret(st, ok(m[2]))


@model('Iterator::eq', 'Iterator::ne')
def iter_eq(ip, st, c):
    outs = []
    for s, a in consume(ip, st, c.args[0], c):
        for s2, b in consume(ip, s, c.args[1], c):
            x, y = ip.mat(s2, a), ip.mat(s2, b)
            if all(q[0] == 'e' for q in x[1]) and all(q[0] == 'e' for q in y[1]):
                r = FALSE if len(x[1]) != len(y[1]) else ip.mk_and([ip.mk_eq(s2, q[1], w[1]) for q, w in zip(x[1], y[1])])
            else:
                r = T('iter_eq', x, y)
            outs.append(('ret', s2, ip.mk_not(r) if c.short.endswith('ne') else r))
    return outs


@model('IdentExt::unraw')
def unraw(ip, st, c):
    v = ip.mat(st, c.args[0])
    if v[0] == 's':
        return ret(st, ('s', v[1][2:] if v[1].startswith('r#') else v[1]))
    return None


@model('RepAsIteratorExt::quote_into_iter', 'RepIteratorExt::quote_into_iter', 'RepToTokensExt::quote_into_iter')
def quote_into_iter(ip, st, c):
    if c.short.startswith('RepToTokens'):
        return None
    return ret(st, ('tup', (as_it(ip, st, c.args[0]), T('HasIterator'))))


def explicit(ip, st, v):
    m = ip.mat(st, v)
    if m[0] in ('seq', 'it') and all(x[0] == 'e' and not (len(x) > 2 and x[2]) for x in m[1]):
        return [x[1] for x in m[1]]
    return None


@model('Itertools::cartesian_product')
def cartesian(ip, st, c):
    outs = []
    for s, a in consume(ip, st, c.args[0], c):
        for s2, b in consume(ip, s, c.args[1], c):
            x, y = explicit(ip, s2, a), explicit(ip, s2, b)
            if x is not None and y is not None:
                outs.append(('ret', s2, ('it', tuple(('e', ('tup', (q, w)), ()) for q in x for w in y))))
            else:
                outs.append(('ret', s2, ('it', (('each', T('cartesian_product', ip.mat(s2, a), ip.mat(s2, b)), ()),))))
    return outs


@model('Itertools::multi_cartesian_product')
def multi_cartesian(ip, st, c):
    outs = []
    for s, a in consume(ip, st, c.args[0], c):
        x = explicit(ip, s, a)
        xs = [explicit(ip, s, q) for q in x] if x is not None else [None]
        if any(q is None for q in xs):
            outs.append(('ret', s, ('it', (('each', T('multi_cartesian_product', ip.mat(s, a)), ()),))))
            continue
        import itertools
        outs.append(('ret', s, ('it', tuple(('e', ('seq', tuple(('e', z) for z in q)), ()) for q in itertools.product(*xs)))))
    return outs


@model('Itertools::collect_tuple')
def collect_tuple(ip, st, c):
    dt = ip.p.types[c.destty] if c.destty is not None else None
    n = None
    if dt is not None and dt.get('a'):
        t = ip.p.types[dt['a'][0]]
        n = t['s'].count(',') + 1 if t['k'] == 'tuple' and not any(ch in t['s'] for ch in '<[') else len(t['a']) if t['k'] == 'tuple' and 'a' in t else None
    outs = []
    for s, a in consume(ip, st, c.args[0], c):
        x = explicit(ip, s, a)
        if x is None or n is None:
            outs.append(('ret', s, T('collect_tuple', ip.mat(s, a))))
        else:
            outs.append(('ret', s, some(('tup', tuple(x))) if len(x) == n else NONE))
    return outs


@model('Iterator::zip', 'iter::zip', 'Itertools::zip_eq')
def zip_(ip, st, c):
    outs = []
    for s, a in consume(ip, st, c.args[0], c):
        for s2, b in consume(ip, s, c.args[1], c):
            x, y = explicit(ip, s2, a), explicit(ip, s2, b)
            if x is not None and y is not None:
                outs.append(('ret', s2, ('it', tuple(('e', ('tup', (q, w)), ()) for q, w in zip(x, y)))))
            else:
                outs.append(('ret', s2, ('it', (('each', T('zip', ip.mat(s2, a), ip.mat(s2, b)), ()),))))
    return outs


@model('Iterator::take_while', 'Iterator::skip_while')
def while_(ip, st, c):
    outs = []
    take = c.short.endswith('take_while')
    for s, a in consume(ip, st, c.args[0], c):
        if a[0] != 'seq' or any(x[0] != 'e' for x in a[1]):
            outs.append(('ret', s, ('it', (('each', T(c.short.split('::')[1], ip.mat(s, a), ip.mat(s, c.args[1])), ()),))))
            continue
        xs = [x[1] for x in a[1]]
        cur = [s]
        for k, x in enumerate(xs):
            nxt = []
            for q in cur:
                for kd, s2, r in ip.apply(q, c.args[1], [x], c):
                    if kd != 'ret':
                        outs.append((kd, s2, r))
                        continue
                    for s3, b in ip.branch(s2, ip.val(s2, r)):
                        if b:
                            nxt.append(s3)
                        else:
                            outs.append(('ret', s3, ('it', tuple(('e', y, ()) for y in (xs[:k] if take else xs[k:])))))
            cur = nxt
        for q in cur:
            outs.append(('ret', q, ('it', tuple(('e', y, ()) for y in (xs if take else ())))))
    return outs


def comps(x):
    """components of a path as std::path sees them"""
    out = [q for q in x.split('/') if q not in ('', '.')]
    if x.startswith('/'):
        out = ['/'] + out
    elif x.startswith('./') or x == '.':
        out = ['.'] + out
    return out


def uncomps(xs):
    return '/' + '/'.join(xs[1:]) if xs[:1] == ['/'] else '/'.join(xs)


@model('Utf8Path::strip_prefix', 'Path::strip_prefix')
def path_strip_prefix(ip, st, c):
    a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
    if a[0] != 's' or b[0] != 's':
        return None
    x, y = comps(a[1]), comps(b[1])
    return ret(st, ok(('s', uncomps(x[len(y):]))) if x[:len(y)] == y else err(T('StripPrefixError')))


@model('[T]::binary_search')
def binary_search(ip, st, c):
    xs = explicit(ip, st, c.args[0])
    v = ip.mat(st, c.args[1])
    if xs is None or v[0] != 'i' or any(x[0] != 'i' for x in xs):
        return None
    # as the standard library does it, also when the list is not sorted
    ns = [x[1] for x in xs]
    size = len(ns)
    if size == 0:
        return ret(st, err(('i', 0)))
    base = 0
    while size > 1:
        half = size // 2
        mid = base + half
        if not ns[mid] > v[1]:
            base = mid
        size -= half
    if ns[base] == v[1]:
        return ret(st, ok(('i', base)))
    return ret(st, err(('i', base + (1 if ns[base] < v[1] else 0))))


@model('Itertools::tuple_windows')
def tuple_windows(ip, st, c):
    outs = []
    for s, a in consume(ip, st, c.args[0], c):
        x = explicit(ip, s, a)
        if x is None:
            outs.append(('ret', s, ('it', (('each', T('tuple_windows', ip.mat(s, a)), ()),))))
        else:
            outs.append(('ret', s, ('it', tuple(('e', ('tup', (q, w)), ()) for q, w in zip(x, x[1:])))))
    return outs


def _const_path(f):
    def g(ip, st, c):
        xs = [ip.mat(st, a) for a in c.args]
        if any(x[0] != 's' for x in xs):
            return None
        r = f(*(x[1] for x in xs))
        return ret(st, r)
    return g


def _parent(x):
    xs = comps(x)
    return NONE if not xs or xs == ['/'] else some(('s', uncomps(xs[:-1])))


def _file_name(x):
    xs = comps(x)
    return NONE if not xs or xs[-1] in ('/', '..', '.') else some(('s', xs[-1]))


def _stem_ext(n):
    if '.' not in n[1:]:
        return n, None
    a, b = n.rsplit('.', 1)
    return a, b


def _extension(x):
    f = _file_name(x)
    if f == NONE:
        return NONE
    e = _stem_ext(f[3][0][1])[1]
    return NONE if e is None else some(('s', e))


def _file_stem(x):
    f = _file_name(x)
    return NONE if f == NONE else some(('s', _stem_ext(f[3][0][1])[0]))


def _with_file_name(x, n):
    f = _file_name(x)
    xs = comps(x)
    if f != NONE:
        xs = xs[:-1]
    return path_join(('s', uncomps(xs)), ('s', n)) if xs else ('s', n)


def _with_extension(x, e):
    f = _file_name(x)
    if f == NONE:
        return ('s', x)
    n = _stem_ext(f[3][0][1])[0]
    return _with_file_name(x, n + ('.' + e if e else ''))


def _b(x):
    return TRUE if x else FALSE


for _n, _f in {'parent': _parent, 'file_name': _file_name, 'extension': _extension, 'file_stem': _file_stem, 'with_extension': _with_extension, 'with_file_name': _with_file_name,
               'ends_with': lambda x, y: _b(comps(x)[-len(comps(y)):] == comps(y) if comps(y) else True), 'starts_with': lambda x, y: _b(comps(x)[:len(comps(y))] == comps(y)),
               'is_absolute': lambda x: _b(x.startswith('/')), 'is_relative': lambda x: _b(not x.startswith('/'))}.items():
    for _t in ('Utf8Path', 'Path'):
        _k = _t + '::' + _n
        _old = MODELS.get(_k)
        def _mk(new, old):
            def g(ip, st, c):
                r = new(ip, st, c)
                return r if r is not None else old(ip, st, c) if old else None
            return g
        MODELS[_k] = _mk(_const_path(_f), _old)


@model('[T]::split_last', '[T]::split_first')
def split_end(ip, st, c):
    xs = explicit(ip, st, c.args[0])
    if xs is None:
        return None
    if not xs:
        return ret(st, NONE)
    one, rest = (xs[-1], xs[:-1]) if 'last' in c.short else (xs[0], xs[1:])
    return ret(st, some(('tup', (one, ('seq', tuple(('e', x) for x in rest))))))


@model('[T]::split_at')
def split_at(ip, st, c):
    xs = explicit(ip, st, c.args[0])
    n = ip.mat(st, c.args[1])
    if xs is None or n[0] != 'i' or n[1] > len(xs):
        return None
    return ret(st, ('tup', tuple(('seq', tuple(('e', x) for x in q)) for q in (xs[:n[1]], xs[n[1]:]))))


# ------------------------------------------------------------ more operations on explicit lists
def _rng(ip, st, v, n):
    """(from, to) of a constant range value over n elements, or None"""
    v = ip.mat(st, v)
    if v[0] != 'adt':
        return None
    k = v[1].rsplit('::', 1)[-1]
    xs = [ip.mat(st, x) for x in v[3]]
    if k == 'RangeFull':
        return 0, n
    if not xs or xs[0][0] != 'i' or (k in ('Range', 'RangeInclusive') and xs[1][0] != 'i'):
        return None
    r = {'Range': lambda: (xs[0][1], xs[1][1]), 'RangeFrom': lambda: (xs[0][1], n), 'RangeTo': lambda: (0, xs[0][1]),
         'RangeInclusive': lambda: (xs[0][1], xs[1][1] + 1), 'RangeToInclusive': lambda: (0, xs[0][1] + 1)}.get(k)
    r = r() if r else None
    return r if r and 0 <= r[0] <= r[1] <= n else None


def _target(ip, st, a):
    """(place, explicit segments) of the list behind a reference"""
    if a[0] != 'ref':
        return None, None
    while True:
        v = ip.read(st, a[1], a[2])
        if v[0] != 'ref':
            break
        a = v
    if v[0] != 'seq' or any(x[0] != 'e' for x in v[1]):
        return None, None
    return a, v[1]


_old_iter = MODELS['Vec::drain']


@model('Vec::drain', 'VecDeque::drain')
def vec_drain(ip, st, c):
    a, segs = _target(ip, st, c.args[0])
    r = _rng(ip, st, c.args[1], len(segs)) if segs is not None else None
    if r is None:
        return _old_iter(ip, st, c)
    ip.write(st, a[1], a[2], ('seq', segs[:r[0]] + segs[r[1]:]))
    return ret(st, ('it', tuple((x[0], x[1], ()) for x in segs[r[0]:r[1]])))


@model('Vec::truncate', 'VecDeque::truncate', 'Vec::split_off', 'VecDeque::split_off', 'Vec::remove', 'Vec::swap_remove', 'Vec::insert', 'VecDeque::push_front')
def vec_edit(ip, st, c):
    a, segs = _target(ip, st, c.args[0])
    if segs is None:
        return None
    n = c.short.split('::')[1]
    if n == 'push_front':
        ip.write(st, a[1], a[2], ('seq', (('e', c.args[1]),) + segs))
        return ret(st, UNIT)
    i = ip.mat(st, c.args[1])
    if i[0] != 'i':
        return None
    i = i[1]
    if n == 'truncate':
        ip.write(st, a[1], a[2], ('seq', segs[:i]))
        return ret(st, UNIT)
    if i > len(segs) or n in ('remove', 'swap_remove') and i >= len(segs):
        return None
    if n == 'split_off':
        ip.write(st, a[1], a[2], ('seq', segs[:i]))
        return ret(st, ('seq', segs[i:]))
    if n == 'insert':
        ip.write(st, a[1], a[2], ('seq', segs[:i] + (('e', c.args[2]),) + segs[i:]))
        return ret(st, UNIT)
    rest = segs[:i] + segs[i + 1:] if n == 'remove' or i == len(segs) - 1 else segs[:i] + segs[-1:] + segs[i + 1:-1]
    ip.write(st, a[1], a[2], ('seq', rest))
    return ret(st, segs[i][1])


@model('[T]::chunks', '[T]::chunks_exact', '[T]::windows', '[T]::rchunks')
def chunks(ip, st, c):
    xs = explicit(ip, st, c.args[0])
    n = ip.mat(st, c.args[1])
    if xs is None or n[0] != 'i' or n[1] <= 0:
        return None
    n, k = n[1], c.short.split('::')[1]
    if k == 'windows':
        parts = [xs[i:i + n] for i in range(len(xs) - n + 1)]
    elif k == 'rchunks':
        parts = [xs[max(0, i - n):i] for i in range(len(xs), 0, -n)]
    else:
        parts = [xs[i:i + n] for i in range(0, len(xs), n)]
        if k == 'chunks_exact':
            parts = [q for q in parts if len(q) == n]
    return ret(st, ('it', tuple(('e', ('seq', tuple(('e', x) for x in q)), ()) for q in parts)))


_old_rev = MODELS['[T]::reverse']


@model('[T]::reverse')
def reverse(ip, st, c):
    a, segs = _target(ip, st, c.args[0])
    if segs is None:
        return _old_rev(ip, st, c)
    ip.write(st, a[1], a[2], ('seq', segs[::-1]))
    return ret(st, UNIT)


@model('[T]::swap', '[T]::rotate_left', '[T]::rotate_right')
def swap_rot(ip, st, c):
    a, segs = _target(ip, st, c.args[0])
    xs = [ip.mat(st, x) for x in c.args[1:]]
    if segs is None or any(x[0] != 'i' or x[1] >= max(1, len(segs)) for x in xs):
        return None
    s = list(segs)
    if c.short.endswith('swap'):
        i, j = xs[0][1], xs[1][1]
        s[i], s[j] = s[j], s[i]
    else:
        k = xs[0][1] if c.short.endswith('left') else len(s) - xs[0][1]
        s = s[k:] + s[:k]
    ip.write(st, a[1], a[2], ('seq', tuple(s)))
    return ret(st, UNIT)


@model('Vec::dedup_by_key')
def dedup_by_key(ip, st, c):
    return _seqfn(ip, st, c, 'dedup_by_key')


_old_step = {n: MODELS['Iterator::' + n] for n in ('step_by', 'skip', 'take')}


@model('Iterator::step_by', 'Iterator::skip', 'Iterator::take')
def step_by(ip, st, c):
    k = ip.mat(st, c.args[1])
    name = c.short.split('::')[1]
    w = ip.val(st, c.args[0])
    if k[0] == 'i' and name == 'skip' and w[0] == 'it' and c.args[0][0] != 'ref' and all(s[0] == 'e' and not s[2] for s in w[1]):
        return ret(st, ('it', w[1][k[1]:]))
    if k[0] != 'i' or name != 'step_by' or k[1] < 1:
        return _old_step[name](ip, st, c)
    outs = []
    for s, seq in consume(ip, st, c.args[0], c):
        if seq[0] != 'seq' or any(x[0] != 'e' for x in seq[1]):
            return _old_step[name](ip, st, c)
        outs.append(('ret', s, ('it', tuple(('e', x[1], ()) for x in seq[1][::k[1]]))))
    return outs


@model('str::trim_end_matches', 'str::trim_start_matches', 'str::trim_matches')
def trim_matches(ip, st, c):
    a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
    n = c.short.split('::')[1]
    if a[0] == 's' and b[0] in ('s', 'ch') and b[1]:
        x = a[1]
        while n != 'trim_start_matches' and x.endswith(b[1]):
            x = x[:-len(b[1])]
        while n != 'trim_end_matches' and x.startswith(b[1]):
            x = x[len(b[1]):]
        return ret(st, ('s', x))
    return ret(st, T(n, a, b))


@model('str::find', 'str::rfind')
def str_find(ip, st, c):
    a, b = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
    if a[0] == 's' and b[0] in ('s', 'ch'):
        i = (a[1].find if c.short.endswith('::find') else a[1].rfind)(b[1])
        return ret(st, NONE if i < 0 else some(('i', len(a[1][:i].encode()))))
    return None


@model('str::repeat', '[T]::repeat')
def str_repeat(ip, st, c):
    a, n = ip.mat(st, c.args[0]), ip.mat(st, c.args[1])
    if a[0] == 's' and n[0] == 'i' and n[1] * len(a[1]) <= 10000:
        return ret(st, ('s', a[1] * n[1]))
    return None


@model('Clone::clone_from', 'ToOwned::clone_into')
def clone_from(ip, st, c):
    a, b = c.args if c.short.endswith('from') else reversed(c.args)
    if a[0] != 'ref':
        return None
    ip.write(st, a[1], a[2], ip.mat(st, b))
    return ret(st, UNIT)


@model('Duration::try_from_secs_f64')
def try_from_secs(ip, st, c):
    """Ok of what from_secs_f64 gives, or an error for a number of seconds that is no duration"""
    x = ip.mat(st, c.args[0])
    if x[0] == 'f':
        try:
            good = 0 <= float(x[1]) < 1.8e19
        except ValueError:
            good = None
        if good is not None:
            return ret(st, ok(T('Duration::from_secs_f64', x)) if good else err(T('TryFromFloatSecsError')))
    outs = []
    for s, b in ip.branch(st, T('valid_secs', x)):
        outs += ret(s, ok(T('Duration::from_secs_f64', x)) if b else err(T('TryFromFloatSecsError')))
    return outs


CHAR = {'len_utf8': lambda c: ('i', len(c.encode())), 'len_utf16': lambda c: ('i', len(c.encode('utf-16-le')) // 2), 'is_ascii': lambda c: ('b', c.isascii()),
        'is_whitespace': lambda c: ('b', c.isspace()), 'is_ascii_whitespace': lambda c: ('b', c in ' \t\n\r\f'), 'is_control': lambda c: ('b', ord(c) < 32 or 127 <= ord(c) < 160),
        'is_ascii_control': lambda c: ('b', ord(c) < 32 or ord(c) == 127), 'is_alphabetic': lambda c: ('b', c.isalpha()), 'is_alphanumeric': lambda c: ('b', c.isalnum()), 'is_numeric': lambda c: ('b', c.isnumeric()),
        'is_ascii_alphabetic': lambda c: ('b', c.isascii() and c.isalpha()), 'is_ascii_alphanumeric': lambda c: ('b', c.isascii() and c.isalnum()), 'is_ascii_digit': lambda c: ('b', c.isascii() and c.isdigit()),
        'is_uppercase': lambda c: ('b', c.isupper()), 'is_lowercase': lambda c: ('b', c.islower()), 'is_ascii_uppercase': lambda c: ('b', c.isascii() and c.isupper()), 'is_ascii_lowercase': lambda c: ('b', c.isascii() and c.islower())}


@model(*['char::' + n for n in CHAR])
def m_char(ip, st, c):
    v = c.m(st, 0)
    name = c.short.rsplit('::', 1)[-1]
    if v[0] == 'ch':
        return ret(st, CHAR[name](v[1]))
    return None


INTS = ('usize', 'u64', 'u32', 'u16', 'u8', 'isize', 'i64', 'i32', 'i16', 'u128', 'i128')


@model(*['%s::%s_%s' % (t, k, o) for t in INTS for k in ('saturating', 'wrapping', 'checked', 'overflowing') for o in ('add', 'sub', 'mul')] + ['%s::%s' % (t, o) for t in INTS for o in ('abs_diff', 'div_ceil', 'checked_div', 'checked_rem')])
def m_int(ip, st, c):
    """integers are unbounded above; unsigned ones end at 0"""
    a, b = c.m(st, 0), c.m(st, 1)
    ty, name = c.short.split('::')
    low = 0 if ty[0] == 'u' else None
    known = a[0] == 'i' and b[0] == 'i'
    if name == 'abs_diff':
        return ret(st, ('i', abs(a[1] - b[1]))) if known else None
    if name == 'div_ceil':
        return ret(st, ('i', -(-a[1] // b[1]))) if known and b[1] else None
    if name in ('checked_div', 'checked_rem'):
        return ret(st, NONE if not b[1] else some(('i', a[1] // b[1] if name == 'checked_div' else a[1] % b[1]))) if known else None
    kind, op = name.split('_')
    if kind == 'overflowing':
        return None
    if op == 'sub' and low == 0 and not known and b != ('i', 0):
        return None
    r = ip.arith(op, a, b)
    under = low == 0 and r[0] == 'i' and r[1] < 0
    if kind == 'checked':
        return ret(st, NONE if under else some(r))
    if under:
        return ret(st, ('i', 0)) if kind == 'saturating' else None
    return ret(st, r)
