#!/usr/bin/env python3
"""Draws a schema from a seed, biased towards the edges of the encoding: rndschema.py SEED OUT_DIR writes rx.proto and the
registrations (types with their template arguments) of its messages, to be added to those of the fixed schemas."""
import json, os, random, sys

SCALARS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'fixed64', 'sfixed64', 'double', 'fixed32', 'sfixed32', 'float']
SIZE = {'bool': 16, 'int32': 16, 'uint32': 16, 'sint32': 16, 'fixed32': 16, 'sfixed32': 16, 'float': 16}
EDGES = [1, 2, 3, 14, 15, 16, 17, 126, 127, 128, 129, 2046, 2047, 2048, 2049, 16383, 16384, 262143, 262144, 33554431, 33554432, 536870910, 536870911]
LENGTHS = [1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 64, 100, 127, 128, 129, 130, 255, 256, 300]


def schema(seed):
    r = random.Random('schema %d' % seed)
    out = ['// Drawn by tools/rndschema.py from seed %d.' % seed, 'syntax = "proto3";', 'package rx;', 'import "embedded_proto_options.proto";', 'import "sc.proto";', '']
    out += ['enum Top { T0 = 0; T1 = %d; T2 = %d; }' % (r.choice([1, 63, 64, 127]), r.choice([128, 255, 256, 16383, 16384, 2147483647])), '']
    size, nparam, regs, usable = {}, {}, {}, []
    count = r.randint(6, 9)
    for k in range(count):
        name = 'M%d' % k
        body, ind, total, params, used, nested = [], '  ', 64, [], set([0]), []
        shape = r.choice(['mixed', 'mixed', 'mixed', 'mixed', 'optional', 'oneofs', 'repeated', 'nested'])
        n = r.choice([0, 1, 2, 3, 5, 8, 12, 17]) if k and shape == 'mixed' else r.randint(2, 12)
        if shape == 'optional':
            n = r.choice([1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65])
        if r.random() < 0.5:
            nested.append('Kind')
            body.append(ind + 'enum Kind { K0 = 0; K1 = %d; K2 = %d; }' % (r.choice([1, 5, 127]), r.choice([128, 300, 70000])))
        if r.random() < 0.3:
            nested.append('Part')
            body.append(ind + 'message Part { %s a = 1; optional %s b = %d; }' % (r.choice(SCALARS), r.choice(SCALARS), r.choice([2, 15, 16, 2048])))
        order = list(range(n))
        style = r.choice(['dense', 'edges', 'sparse'])
        nums = r.sample(range(1, n + 6), n) if style == 'dense' else None
        if style == 'dense' and r.random() < 0.5:
            nums.sort()

        def number(i):
            if nums:
                x = nums[i]
            else:
                x = 0
                while x in used or 19000 <= x <= 19999:
                    x = r.choice(EDGES) if (style == 'edges' and len(used) < 15) or r.random() < 0.3 else r.randint(1, 1 << r.randint(2, 28))
            used.add(x)
            return x

        def ftype(depth_ok=True):
            """type, bytes, template arguments needed"""
            c = r.random()
            if shape == 'nested' and depth_ok:
                c = r.choice([c, 0.95])
            if c < 0.5:
                t = r.choice(SCALARS)
                return t, SIZE.get(t, 24), 's'
            if c < 0.6:
                return r.choice(['Top', 'sc.Color'] + (['Kind'] if 'Kind' in nested else [])), 16, 's'
            if c < 0.72:
                return 'string', 16, 'l'
            if c < 0.82:
                return 'bytes', 16, 'l'
            cand = [u for u in usable if size[u] < 1500 and not nparam[u]] + (['Part'] if 'Part' in nested else []) + ['sc.Empty', 'sc.OnlyBool']
            t = r.choice(cand)
            return t, size.get(t, 80), 'm'

        def length(limit):
            return r.choice([x for x in LENGTHS if x <= limit] or [1])

        i = 0
        while i < n:
            card = {'optional': 'optional', 'repeated': 'repeated'}.get(shape) or r.choice(['', '', '', 'optional', 'repeated', 'oneof'])
            if shape == 'optional' and r.random() < 0.05:
                card = ''
            if shape == 'oneofs':
                card = r.choice(['oneof', 'oneof', ''])
            if card == 'oneof':
                m = min(n - i, r.choice([1, 2, 3, 5]))
                body.append(ind + 'oneof o%d {' % i)
                big = 0
                for q in range(m):
                    t, b, kind = ftype()
                    opt = ''
                    if kind == 'l':
                        L = length(130); b += L; opt = ' [(EmbeddedProto.options).maxLength = %d]' % L
                    big = max(big, b)
                    body.append(ind + '  %s f%d = %d%s;' % (t, i, number(i), opt))
                    i += 1
                body.append(ind + '}')
                total += big + 8
                continue
            t, b, kind = ftype()
            opt = ''
            if card == 'repeated':
                if kind == 'l':
                    L = length(12)   # elements and characters
                    b = L * (16 + L)
                elif kind == 's':
                    L = length(130); b = L * b
                else:
                    L = r.choice([1, 2, 3, 4]) if b < 400 else 1; b = L * b
                opt = ' [(EmbeddedProto.options).maxLength = %d]' % L
            elif kind == 'l':
                L = length(300); b += L
                if r.random() < 0.2 and k == count - 1:
                    params.append(L)
                else:
                    opt = ' [(EmbeddedProto.options).maxLength = %d]' % L
            if total + b > 7000:
                t, b, opt, card = 'bool', 16, '', '' if card == 'repeated' else card
            total += b
            body.append(ind + '%s%s f%d = %d%s;' % (card + ' ' if card else '', t, i, number(i), opt))
            i += 1
        size[name] = total
        nparam[name] = len(params)
        usable.append(name)
        regs['rx.' + name] = [params] if params else None
        out += ['message %s {' % name] + body + ['}', '']
    return '\n'.join(out), regs


if __name__ == '__main__':
    text, regs = schema(int(sys.argv[1]))
    open(os.path.join(sys.argv[2], 'rx.proto'), 'w').write(text)
    json.dump(regs, open(os.path.join(sys.argv[2], 'rx.json'), 'w'))
