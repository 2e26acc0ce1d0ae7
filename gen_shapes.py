#!/usr/bin/env python3
"""Writes core/src/checks/c25_shapes.rs: assertions of every shape, to be called with any values."""
import itertools
CONDS = {
 'Data': 'with_data: v.data.clone()',
 'Metadata': 'with_metadata: v.metadata.clone()',
 'Tags': 'tagged_with: v.tags',
 'At': 'scheduled_at: v.at',
 'After': 'scheduled_after: v.after',
 'Before': 'scheduled_before: v.before',
 'Type': 'for_executor: Plain',
 'Name': 'for_executor: "plain"',
}
shapes = []
for c in CONDS: shapes += [([c], False), ([c], True)]
for p in itertools.permutations(CONDS, 2):
    if set(p) != {'Type', 'Name'}:
        shapes.append((list(p), (len(shapes) % 3) == 0))
for t in [('Data','Metadata','Tags'),('Tags','At','Type'),('After','Before','Name'),('Before','After','Type'),
          ('Type','Data','After'),('Name','Tags','Before'),('Metadata','Type','At'),('After','Type','Before')]:
    shapes.append((list(t), True)); shapes.append((list(reversed(t)), False))
for t in [('Data','Metadata','Tags','At','After','Before','Type'),('Name','Before','After','At','Tags','Metadata','Data'),
          ('Before','Tags','Type','Data','After','Metadata'),('Tags','Data','After','Before','Name')]:
    shapes.append((list(t), False)); shapes.append((list(t), True))
counts = ['', '0 jobs, ', '1 job, ', '1 jobs, ', '2 jobs, ', '3 jobs, ']
out = ["// Generated by gen_shapes.py.", "use super::*;", "use rexecutor::assert_enqueued;", "",
       f"pub const SHAPES: [&[Condition]; {len(shapes)}] = ["]
for s, _ in shapes:
    out.append("    &[" + ", ".join("Condition::" + c for c in s) + "],")
out.append("];")
for i, (s, comma) in enumerate(shapes):
    body = ", ".join(CONDS[c] for c in s) + ("," if comma else "")
    out.append(f"async fn shape_{i}(how: usize, v: &Values, backend: &InMemoryBackend) {{")
    out.append("    match how {")
    n = 0
    for to in ['to: backend, ', '']:
        for c in counts:
            out.append(f"        {n} => {{ assert_enqueued!({c}{to}{body}); }}")
            n += 1
    out.append('        _ => unreachable!("{backend:p}"),')
    out.append("    }")
    out.append("}")
out.append("pub fn assert(shape: usize, how: usize, values: &Values, backend: &InMemoryBackend) {")
out.append("    match shape {")
for i in range(len(shapes)):
    out.append(f"        {i} => now(shape_{i}(how, values, backend)),")
out.append("        _ => unreachable!(),\n    }\n}")
open('/verif/core/src/checks/c25_shapes.rs', 'w').write("\n".join(out) + "\n")
print(len(shapes))
