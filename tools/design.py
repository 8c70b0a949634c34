#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, properties.jsonl, the quick tier's evidence and design_tail.md"""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
ORACLE = {
    'C01': 'an independent varint encoder/decoder on u128 arithmetic; written size vs predicted size.',
    'C02': 'the value that was written (structural equality through public accessors).',
    'C03': 'byte equality with the independent encoder; for foreign encodings the independent meaning.',
    'C04': 'no panic (overflow checks on), no consumption past the frame, allocation counter, watchdog.',
    'C05': 'an independent strict parser: accept exactly what it accepts, with equal content.',
    'C06': 'the frames of the unchunked stream; bytes left in the source; waker bookkeeping.',
    'C07': 'declared <= N and complete: delivered; declared > N: frame-size error before the body; allocation counter.',
    'C08': 'size predicate on bytes observed at the transport; status of the disconnect frame.',
    'C09': 'bytes, order and flush seen by the transport versus the independent encoding.',
    'C10': 'the list of complete frames before the break, then an I/O error.',
    'C11': 'map from key to list of pending items.',
    'C12': 'some sequential order consistent with program order gives the same results (all orders tried).',
    'C13': 'model of open notifications, jobs and their message queues.',
    'C14': 'per-notification multiset and per-thread order of messages, number of handles/jobs; linearisation by enumeration.',
    'C15': "model of a job's pending actions and end.",
    'C16': 'model of queue contents; wake counters.',
    'C17': 'highest common version, min of sizes, intersection of capabilities.',
    'C18': 'protocol model `conn::Model`: frames, makes and calls allowed so far.',
    'C19': 'protocol model.',
    'C20': 'protocol model.',
    'C21': 'protocol model with reassembly.',
    'C22': 'protocol model with error statuses.',
    'C23': 'protocol model with deadlines on the virtual clock.',
    'C24': "Tower's contract: poll_ready true since the last call.",
    'C25': 'protocol model with shutdown.',
    'C26': 'model of accepted connections and work in hand.',
    'C27': 'what the same script gives alone.',
    'C28': 'model of the accept queue.',
    'C29': 'independent block decoder.',
    'C30': 'table of SPOP codes; root of the chain.',
    'C31': 'union / last call / default of the builder calls.',
    'C32': 'counts of services made and dropped, calls in hand, live tasks; live bytes of the counting allocator after few and after many repetitions.',
    'C33': 'the same execution with nobody listening (transcripts), or the model of the other property; what also fails silently is not reported here.',
    'C35': 'the uninterrupted execution of the same script (itself held against the protocol model by C18 to C23).',
    'C36': 'the independent encoder of wire.rs and the size that the history so far puts in force.',
    'C37': 'protocol model per connection; number of open connections for when serving ends.',
    'C34': 'protocol model per connection; real time for what blocks.',
}
out = [open('tools/design_head.md').read().rstrip() + '\n\n# Per property\n']
for line in open('properties.jsonl'):
    p = json.loads(line)
    e = json.load(open(f"evidence/{p['id']}.json"))
    out.append(f"## {p['id']} {p['title']}\n")
    out.append(f"Oracle: {ORACLE[p['id']]} Quick run {e['wall_s']:.0f} s.\n")
    out.append(f"Why beyond tests: {p['why_tests_cant']}\n")
    for h in e['coverage']['harnesses']:
        d = f", up to {h['deviation_bound']} deviations" if h.get('deviation_bound') else ''
        out.append(f"* *{h['name']}*: {h['explores']}. ({h['executions_of_the_real_code']} executions, {h['cases']} cases{d})")
    out.append('')
out.append(open('tools/design_tail.md').read())
rows = []
for s in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{s}/meta.json'))
    rows.append((m['property'], s, m['needs'].replace('|', '/').replace('\n', ' ')))
out.append('| property and check that catches it | seed | needs |\n|---|---|---|')
out += [f'| {p} | {s} | {n} |' for p, s, n in sorted(rows)]
out.append('')
open('DESIGN.md', 'w').write('\n'.join(out))
