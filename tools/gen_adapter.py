#!/usr/bin/env python3
# Emits the adapters (function tables) for all messages of a descriptor set.
#   gen_adapter.py DESCRIPTOR_SET GENERATOR_COPY OUT_DIR REGISTRATIONS.json N_TU
# Run with a python that has google.protobuf; GENERATOR_COPY/EmbeddedProto holds embedded_proto_options_pb2.
import json, os, sys
dset, gcopy, out, regfile, ntu = sys.argv[1:6]
sys.path.insert(0, gcopy)
from google.protobuf import descriptor_pb2
import EmbeddedProto.embedded_proto_options_pb2 as opt
FD = descriptor_pb2.FieldDescriptorProto
KIND = {FD.TYPE_INT32: 'K_INT32', FD.TYPE_INT64: 'K_INT64', FD.TYPE_UINT32: 'K_UINT32', FD.TYPE_UINT64: 'K_UINT64', FD.TYPE_SINT32: 'K_SINT32',
        FD.TYPE_SINT64: 'K_SINT64', FD.TYPE_BOOL: 'K_BOOL', FD.TYPE_ENUM: 'K_ENUM', FD.TYPE_FIXED64: 'K_FIXED64', FD.TYPE_SFIXED64: 'K_SFIXED64',
        FD.TYPE_DOUBLE: 'K_DOUBLE', FD.TYPE_FIXED32: 'K_FIXED32', FD.TYPE_SFIXED32: 'K_SFIXED32', FD.TYPE_FLOAT: 'K_FLOAT', FD.TYPE_STRING: 'K_STRING',
        FD.TYPE_BYTES: 'K_BYTES', FD.TYPE_MESSAGE: 'K_MSG'}
fds = descriptor_pb2.FileDescriptorSet(); fds.ParseFromString(open(dset, 'rb').read())
msgs = {}; order = []
def maxlen(f):
    return f.options.Extensions[opt.options].maxLength if f.options.HasExtension(opt.options) else 0
def walk(file, prefix, cpp, m):
    full = prefix + '.' + m.name
    if m.options.map_entry: return
    c = cpp + '::' + m.name
    for n in m.nested_type: walk(file, full, c, n)
    msgs[full] = (file, m, c); order.append(full)
for f in fds.file:
    if f.name.startswith('google/') or f.name.endswith('embedded_proto_options.proto'): continue
    for m in f.message_type:
        walk(f, '.' + f.package, '::' + f.package.replace('.', '::'), m)
memo = {}
def real_oneofs(m):
    syn = {f.oneof_index for f in m.field if f.proto3_optional}
    return [(i, o) for i, o in enumerate(m.oneof_decl) if i not in syn]
def nparams(full):
    if full in memo: return memo[full]
    m = msgs[full][1]; n = 0
    for f in m.field:
        rep = f.label == FD.LABEL_REPEATED
        if f.type == FD.TYPE_MESSAGE:
            n += nparams(f.type_name)
            if rep and not maxlen(f): n += 1
        else:
            if not maxlen(f):
                if rep: n += 1
                if f.type in (FD.TYPE_STRING, FD.TYPE_BYTES): n += 1
    memo[full] = n
    return n
files = []
os.makedirs(out, exist_ok=True)
for f in fds.file:
    mine = [x for x in order if msgs[x][0] is f]
    if not mine: continue
    base = f.name[:-len('.proto')]; files.append(base)
    L = ['#pragma once', '#include "adapt.h"', '#include "%s.h"' % base]
    for d in f.dependency:
        if d.startswith('google/') or d.endswith('embedded_proto_options.proto'): continue
        L.append('#include "ad_%s.h"' % d[:-len('.proto')].replace('/', '_'))
    for full in mine:
        m, cpp = msgs[full][1], msgs[full][2]; k = nparams(full)
        if k: L.append('template<%s> struct Desc<%s<%s> > {' % (', '.join('uint32_t P%d' % i for i in range(k)), cpp, ', '.join('P%d' % i for i in range(k))))
        else: L.append('template<> struct Desc<%s> {' % cpp)
        targs = '<%s>' % ', '.join('P%d' % i for i in range(k)) if k else ''
        L.append('  typedef %s%s M;' % (cpp, targs))
        ro = real_oneofs(m); idx = {i: n for n, (i, o) in enumerate(ro)}
        rows = []; caps = []; at = 0
        for fl in m.field:
            # the capacity the schema or the template argument gives: number of elements, length of a string
            ml = maxlen(fl); crep = cstr = '0'
            if fl.label == FD.LABEL_REPEATED:
                if ml: crep = str(ml)
                else: crep = 'P%d' % at; at += 1
            if fl.type == FD.TYPE_MESSAGE: at += nparams(fl.type_name)
            elif fl.type in (FD.TYPE_STRING, FD.TYPE_BYTES):
                if ml: cstr = str(ml)
                else: cstr = 'P%d' % at; at += 1
            caps += [crep, cstr]
            kd = KIND[fl.type]; rep = fl.label == FD.LABEL_REPEATED
            of = idx.get(fl.oneof_index, -1) if fl.HasField('oneof_index') and not fl.proto3_optional else -1
            card = 'C_ONEOF' if of >= 0 else 'C_OPT' if fl.proto3_optional else 'C_SING'
            has = 'HAS_(%s)' % fl.name if card != 'C_SING' else 'NO'
            if rep:
                mac = 'F_REP_MSG' if kd == 'K_MSG' else 'F_REP_STR' if kd in ('K_STRING', 'K_BYTES') else 'F_REP_S'
                rows.append('%s(%s, %d, %s)' % (mac, fl.name, fl.number, kd))
            else:
                mac = 'F_MSG' if kd == 'K_MSG' else 'F_STR' if kd in ('K_STRING', 'K_BYTES') else 'F_SCALAR_NM' if (kd == 'K_ENUM' or of >= 0) else 'F_SCALAR'
                rows.append('%s(%s, %d, %s, %s, %d, %s)' % (mac, fl.name, fl.number, kd, card, of, has))
        # The names of accessors hide the macros' parameter names only inside M, hence "x" stays a plain token.
        L.append('  static const FieldOps* fields() {')
        if rows: L.append('    static const FieldOps f[] = {\n      ' + ',\n      '.join(rows) + ' };\n    return f; }')
        else: L.append('    return nullptr; }')
        if ro:
            L.append('  static uint32_t (*const* which())(const void*) { static uint32_t (*const w[])(const void*) = {')
            L.append(',\n'.join('    [](const void* m) -> uint32_t { LibScope l; return static_cast<uint32_t>(static_cast<const M*>(m)->get_which_%s()); }' % o.name for i, o in ro))
            L.append('  }; return w; }')
        L.append('  static const char* num_name(uint32_t n) { LibScope l; return M::field_number_to_name(static_cast<typename M::FieldNumber>(n)); }' if k else
                 '  static const char* num_name(uint32_t n) { LibScope l; return M::field_number_to_name(static_cast<M::FieldNumber>(n)); }')
        L.append('  static const uint32_t* caps() { %s }' % ('static const uint32_t c[] = { %s }; return c;' % ', '.join(caps) if caps else 'return nullptr;'))
        L.append('  static const MsgOps* ops() { static const MsgOps o = { "%s", "%s", OBJ_OPS(M), &ObjFns<M>::move, &ObjFns<M>::move_assign, %d, fields(), %d, %s, &num_name, TO_STRING_, caps() }; return &o; }' %
                 (full[1:], full[1:], len(rows), len(ro), 'which()' if ro else 'nullptr'))
        L.append('};')
    text = '\n'.join(L) + '\n'
    if 1:  # DECAY_GET uses "typename": only valid in templates
        pass
    open(os.path.join(out, 'ad_%s.h' % base.replace('/', '_')), 'w').write(text)
regs = json.load(open(regfile))
items = []
for full, argsets in regs.items():
    if full.startswith('_'): continue
    assert '.' + full in msgs, full
    k = nparams('.' + full)
    for a in (argsets or [[]]):
        assert len(a) == k, (full, a, k)
        items.append((full, a))
n = int(ntu)
# spread by a rough cost, biggest first
def cost(full, seen=None):
    m = msgs['.' + full][1]
    return len(m.field) + sum(cost(f.type_name[1:]) for f in m.field if f.type == FD.TYPE_MESSAGE)
buckets = [[0, []] for _ in range(n)]
for full, a in sorted(items, key=lambda t: -cost(t[0])):
    b = min(buckets, key=lambda t: t[0]); b[0] += cost(full) + 5; b[1].append((full, a))
for i, (c, its) in enumerate(buckets):
    L = []
    for full, a in its:
        base = msgs['.' + full][0].name[:-6].replace('/', '_')
        inc = '#include "ad_%s.h"' % base
        if inc not in L: L.append(inc)
    L.append('void register_message(const MsgOps*, const char* label);')
    L.append('void register_part_%d() {' % i)
    for full, a in its:
        t = msgs['.' + full][2] + ('<%s>' % ', '.join(map(str, a)) if a else '')
        L.append('  register_message(Desc<%s >::ops(), "%s");' % (t, full + ('<%s>' % ','.join(map(str, a)) if a else '')))
    L.append('}')
    open(os.path.join(out, 'reg_%d.cpp' % i), 'w').write('\n'.join(L) + '\n')
L = ['void register_part_%d();' % i for i in range(n)] + ['void register_all() {'] + ['  register_part_%d();' % i for i in range(n)] + ['}']
open(os.path.join(out, 'reg_all.cpp'), 'w').write('\n'.join(L) + '\n')
