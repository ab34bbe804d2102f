#!/usr/bin/env python3
"""Generate element-wise expression trees for C03.

usage: gen_c03.py SEED COUNT PARTS > c03_gen.cpp

Every tree is emitted twice: once with the library's operators over operands in mixed forms
(named, const, temporary, moved-in, views, views of temporaries' copies) and once as plain per-element
arithmetic with the conversions to the common type written out."""
import random, sys

seed, count, parts = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
rnd = random.Random(seed)
TYPES = ['double', 'double', 'float', 'float', 'int', 'int', 'unsigned char', 'unsigned char', 'long', 'short', 'unsigned']
RANK = {'double': 9, 'float': 8, 'long': 7, 'unsigned': 6, 'int': 5, 'short': 1, 'unsigned char': 0}
LEAF = {'unsigned char': 255.0, 'long': 2e12}
FLOATS = ('double', 'float')

def common(a, b):
    # std::common_type decays to the promoted type of ?: except for identical types
    if a == b: return a
    if RANK[a] < 5 and RANK[b] < 5: return 'int'
    return a if RANK[a] > RANK[b] else b

class Gen:
    def __init__(self): self.leaves = []
    # returns (library expression, reference expression, type, magnitude bound)
    def leaf(self):
        if self.leaves and rnd.random() < 0.3:
            i = rnd.randrange(len(self.leaves)); t = self.leaves[i]
        else:
            t = rnd.choice(TYPES); i = len(self.leaves); self.leaves.append(t)
        form = rnd.choice(['L{i}.m', 'L{i}.c()', 'L{i}.tmp()', 'L{i}.view', 'L{i}.cview()', 'L{i}.tview()', 'L{i}.cv', 'std::move(L{i}.spare(S))'])
        # ref: value of leaf i at (x, y, z)
        return form.format(i=i), f'L{i}.r.at(x,y,z)', t, LEAF.get(t, 20.0)
    def scalar(self):
        t = rnd.choice(['double', 'float', 'int', 'double', 'float', 'int', 'long', 'unsigned', 'short'])
        v = {'double': f'{rnd.uniform(-3,3):.3f}', 'float': f'{rnd.uniform(-3,3):.2f}f', 'int': str(rnd.choice([1, 2, 3, -1, -2, 5])),
             'long': rnd.choice(['3000000007L', '-5000000011L', '4L']), 'unsigned': rnd.choice(['2u', '7u']), 'short': rnd.choice(['short(2)', 'short(-3)'])}[t]
        return v, t, 5.1e9 if t == 'long' else 7.0
    def tree(self, depth):
        if depth == 0: return self.leaf()
        k = rnd.random()
        if k < 0.50:
            a = self.tree(depth - 1); b = self.tree(rnd.randrange(depth))
            if rnd.random() < 0.5: a, b = b, a
            t = common(a[2], b[2])
            ops = ['+', '-'] + ([] if t not in FLOATS and a[3] * b[3] > 1e7 else ['*'])
            if t in FLOATS: ops.append('/')
            if rnd.random() < 0.25: ops = ['<', '<=', '>', '>=', '==', '!=']
            op = rnd.choice(ops)
            bound = 1.0 if op[0] in '<>=!' else 4.3e9 if t == 'unsigned' else a[3] * b[3] if op == '*' else 1e6 if op == '/' else a[3] + b[3]
            return f'({a[0]} {op} {b[0]})', f'bin_{NAMES[op]}({a[1]}, {b[1]})', t, bound
        if k < 0.78:
            a = self.tree(depth - 1); s, st, sb = self.scalar(); t = common(a[2], st)
            left = rnd.random() < 0.5
            ops = ['+', '-'] + ([] if t not in FLOATS and a[3] * sb > 1e7 else ['*'])
            if t in FLOATS or not left: ops.append('/')
            if rnd.random() < 0.25: ops = ['<', '<=', '>', '>=', '==', '!=']
            op = rnd.choice(ops)
            bound = 1.0 if op[0] in '<>=!' else 4.3e9 if t == 'unsigned' else a[3] * sb if op == '*' else 1e6 if op == '/' else a[3] + sb
            if left: return f'({s} {op} {a[0]})', f'bin_{NAMES[op]}({s}, {a[1]})', t, bound
            return f'({a[0]} {op} {s})', f'bin_{NAMES[op]}({a[1]}, {s})', t, bound
        a = self.tree(depth - 1)
        f = rnd.choice(['abs', 'exp', 'apply', 'apply2'] if a[2] in FLOATS and a[3] <= 40 else ['apply', 'apply2'] if a[2] == 'unsigned' else ['abs', 'apply', 'apply2'])
        if f == 'abs': return f'my_cnn::abs({a[0]})', f'un_abs({a[1]})', a[2], a[3]
        if f == 'exp': return f'my_cnn::exp({a[0]})', f'un_exp({a[1]})', a[2], 1e18
        if f == 'apply': return f'my_cnn::apply({a[0]}, halve)', f'un_apply(halve, {a[1]})', a[2], a[3]
        return f'my_cnn::apply({a[0]}, Affine{{{rnd.randrange(1,4)}}})', f'un_apply(Affine{{{0}}}, {a[1]})', a[2], 4 * a[3] + 1
NAMES = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}

print(f'// VT_PARTS {parts}\n// generated by tools/gen_c03.py {seed} {count} {parts}')
print('#include "c03.h"')
for n in range(count):
    if n % max(1, (count + parts - 1) // parts) == 0:
        if n: print('#endif')
        print(f'#if VT_PART == {n // ((count + parts - 1) // parts)}')
    g = Gen()
    lib, ref, t, _ = g.tree(rnd.choice([1, 2, 2, 3, 3, 4]))
    # keep the affine constants of library and reference identical
    import re
    ks = re.findall(r'Affine\{(\d)\}', lib)
    # both strings list the nested calls in the same prefix order only per subtree, so rebuild by position
    it = iter(ks)
    def fill(s, order):
        out, i = '', 0
        for m in re.finditer(r'Affine\{\d\}', s):
            out += s[i:m.start()] + f'Affine{{{order}}}'; i = m.end()
        return out + s[i:]
    k = rnd.randrange(1, 4)
    lib, ref = fill(lib, k), fill(ref, k)
    print(f'SCENARIO("C03", c03_tree_{n}, 1){{')
    print('    Sh S = pickShape(R);')
    for i, lt in enumerate(g.leaves): print(f'    Leaf<{lt}> L{i}(R, S);')
    print(f'    const char* text = "{lib}";')
    same = ' && '.join(f'L{i}.same()' for i in range(len(g.leaves))) or 'true'
    reset = ' '.join(f'L{i}.respare();' for i in range(len(g.leaves)))
    print(f'    auto ref = [&](int x, int y, int z){{ return {ref}; }};')
    print(f'    runTree(text, S, [&]() {{ {reset} return {lib}; }}, ref, [&]{{ return {same}; }});')
    upd = rnd.choice(['+=', '-=', '*='])
    dst = rnd.choice(['double', 'float'])
    print(f'    runUpdate<{dst}>(R, text, S, [&](auto&& d){{ {reset} d {upd} {lib}; }}, [&](auto v, int x, int y, int z){{ auto w = v; w {upd} ref(x, y, z); return w; }}, "{upd}", [&]{{ return {same}; }});')
    print('}')
print('#endif')
