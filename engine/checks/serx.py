"""What a value is serialized to: the Serialize implementations of the crate, analysed with a recording serializer."""
from vlib import *

LIMIT = 40


def impls(p):
    """type path -> instance of its serialize function"""
    out = {}
    for i in p.raw_bodies:
        q = p.path(i)
        if not q.endswith('::serialize') or not p.insts[i]['local']:
            continue
        if q.startswith('<') and ' as ' in q:
            out[q[1:].split(' as ')[0]] = i
        elif 'Serialize for ' in q:
            out[q.split('Serialize for ')[1].split('>::serialize')[0]] = i
    return out


def models():
    def struct(ip, st, c):
        return [('ret', st, ok(('seq', ())))]

    def variant_struct(ip, st, c):
        return [('ret', st, ok(('seq', (('e', ('tup', (('s', '#variant'), ip.mat(st, c.args[3])))),))))]

    def fld(ip, st, c):
        a = c.args[0]
        v = ip.val(st, a)
        if v[0] != 'seq' or a[0] != 'ref':
            return None
        while ip.read(st, a[1], a[2])[0] == 'ref':
            a = ip.read(st, a[1], a[2])
        ip.write(st, a[1], a[2], ('seq', v[1] + (('e', ('tup', (ip.mat(st, c.args[1]), ip.mat(st, c.args[2])))),)))
        return [('ret', st, ok(UNIT))]

    def end(ip, st, c):
        return [('ret', st, ok(T('object', ip.mat(st, c.args[0]))))]

    def unit_variant(ip, st, c):
        return [('ret', st, ok(ip.mat(st, c.args[3])))]

    def newtype_variant(ip, st, c):
        return [('ret', st, ok(T('object', ('seq', (('e', ('tup', (ip.mat(st, c.args[3]), ip.mat(st, c.args[4])))),)))))]

    def plain(ip, st, c):
        return [('ret', st, ok(ip.mat(st, c.args[1])))]

    def ser(ip, st, c):
        return [('ret', st, ok(ip.mat(st, c.args[0])))]
    def branch(ip, st, c):
        v = ip.val(st, c.args[0])
        if v[0] != 'adt' or v[1] != RES:
            return None
        cf = 'std::ops::ControlFlow'
        vs = [x[0] for x in ip.p.adts[cf]['variants']]
        if v[2] == 0:
            return [('ret', st, ('adt', cf, vs.index('Continue'), (v[3][0],)))]
        return [('ret', st, ('adt', cf, vs.index('Break'), (v,)))]

    def residual(ip, st, c):
        return [('ret', st, ip.val(st, c.args[0]))]
    m = {'Try::branch': branch, 'FromResidual::from_residual': residual, 'Serializer::serialize_struct': struct, 'Serializer::serialize_map': struct, 'SerializeStruct::serialize_field': fld, 'SerializeMap::serialize_entry': fld, 'SerializeStruct::end': end, 'SerializeMap::end': end,
         'Serializer::serialize_unit_variant': unit_variant, 'Serializer::serialize_newtype_variant': newtype_variant, 'Serializer::serialize_struct_variant': variant_struct,
         'SerializeStructVariant::serialize_field': fld, 'SerializeStructVariant::end': end, 'Serialize::serialize': ser, 'Serializer::collect_str': plain}
    for k in ('str', 'bool', 'u32', 'u64', 'i32', 'i64', 'f64', 'usize', 'newtype_struct', 'some'):
        m['Serializer::serialize_' + k] = plain
    return m


def json_of(ck, v, stop=(), depth=0, im=None, **kw):
    """the JSON value of v: a python dict, list or constant, or a term for what is not known; None in the position of an absent value"""
    p = ck.p
    im = impls(p) if im is None else im
    if depth > LIMIT:
        return v
    if v[0] in ('s', 'b', 'i', 'f'):
        return v[1]
    if v[0] == 'seq':
        if any(s[0] != 'e' for s in v[1]):
            return v
        return [json_of(ck, s[1], stop, depth + 1, im, **kw) for s in v[1]]
    if v[0] == 'adt':
        if v[1] == OPT:
            return None if v[2] == 0 else json_of(ck, v[3][0], stop, depth + 1, im, **kw)
        if v[1] in stop:
            return v
        if v[1] in im:
            ip, outs = ck.run(im[v[1]], {0: v}, models=models(), **kw)
            res = []
            for k, s, r in outs:
                r = ip.mat(s, r) if k == 'ret' else T('panic')
                if is_err(r):
                    continue
                res.append(r)
            if len(res) != 1 or not is_ok(res[0]):
                return T('undecided', *res)
            return json_of(ck, res[0][3][0], stop, depth + 1, im, **kw)
        return v
    if v[0] == 't' and v[1] == 'object':
        if v[2][0] != 'seq' or any(s[0] != 'e' for s in v[2][1]):
            return v
        out = {}
        vn = None
        for s in v[2][1]:
            k, x = s[1][1]
            if k[0] != 's':
                return v
            if k[1] == '#variant':
                vn = x[1]
                continue
            j = json_of(ck, x, stop, depth + 1, im, **kw)
            if k[1] in out:
                return T('duplicate key', k)
            out[k[1]] = j
        return {vn: out} if vn else out
    return v
