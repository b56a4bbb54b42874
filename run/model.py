"""The library contracts of proof/prelude.rs, proved.

proof/model.rs has a body for most functions that prelude.rs only declares (`external_body`). `model` puts the bodies
into prelude.rs, contract texts untouched; Verus then proves the contracts that the main proof assumes.
"""
import re

IMPL = re.compile(r'^(impl\b.*?|pub trait \w+.*?)\s*\{')
BODY = '#[verifier::external_body]'
HOLE = '{ unimplemented!() }'


def model(prelude, bodies, header, footer):
    """(text, keys of the bodies used, keys of the bodies that fit nowhere)"""
    parts = re.split(r'(?m)^//@ (.*)\n', bodies)
    have, extra = {}, ''
    for k, b in zip(parts[1::2], parts[2::2]):
        if k == 'extra':
            extra += b
        else:
            have[k] = b.rstrip()
    used, out, cur = set(), [], ''
    ls = prelude.split('\n')
    i = 0
    while i < len(ls):
        l = ls[i]
        m = IMPL.match(l)
        if m:
            cur = m.group(1)
        m = re.match(r'^pub struct (\w+)', l)
        k = m and 'struct ' + m.group(1)
        if k in have:
            while out and out[-1].startswith('#['):
                out.pop()
            out.append(have[k])
            used.add(k)
            i += 1
            continue
        m = re.search(r'pub uninterp spec fn (\w+)', l)
        k = m and 'spec ' + (cur + ' :: ' if l.startswith(' ') else '') + m.group(1)
        if k in have:
            out.append(have[k])
            used.add(k)
            i += 1
            continue
        if BODY in l:
            j, txt = i, l
            while HOLE not in txt and 'struct' not in txt and j + 1 < len(ls):
                j += 1
                txt += '\n' + ls[j]
            m = re.search(r'\bfn (\w+)', txt[txt.index(BODY):])
            if m and HOLE in txt:
                k = (cur + ' :: ' if l.startswith(' ') or IMPL.match(l) else '') + m.group(1)
                if k in have:
                    used.add(k)
                    txt = txt.replace(BODY, '', 1).replace(HOLE, '\n' + have[k] + '\n', 1)
                out.append(txt)
                i = j + 1
                continue
        out.append(l)
        i += 1
    return header + '\n'.join(out) + extra + footer, sorted(used), sorted(set(have) - used)
