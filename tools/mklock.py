#!/usr/bin/env python3
"""mklock.py > Cargo.lock: a first lock for a harness crate, /repo's with the git packages replaced by the stand-ins.
(cargo asks a patched dependency's own source while it is not locked, which needs the network.)"""
import re
t = open('/repo/Cargo.lock').read()
head, *pk = t.split('[[package]]\n')
out = []
for p in pk:
    n = re.search(r'name = "(.*)"', p)[1]
    if n == 'franklin-crypto':
        p = 'name = "franklin-crypto"\nversion = "0.0.5"\ndependencies = [\n "ff_ce 0.12.0",\n "num-bigint 0.3.3",\n]\n\n'
    elif n == 'profiler_macro':
        p = 'name = "profiler_macro"\nversion = "0.1.0"\n\n'
    elif n == 'powdr':
        p = 'name = "powdr"\nversion = "0.1.0"\ndependencies = [\n "powdr-parser-util",\n]\n\n'
    elif n == 'powdr-parser-util':
        p = 'name = "powdr-parser-util"\nversion = "0.1.0"\n\n'
    elif 'source = "git+' in p:
        continue
    p = re.sub(r' "franklin-crypto[^"]*"', ' "franklin-crypto"', p)
    p = re.sub(r' "profiler_macro[^"]*"', ' "profiler_macro"', p)
    p = re.sub(r' "(powdr|powdr-parser-util)( [^"]*)?"', r' "\1"', p)
    out.append(p)
print(head + ''.join('[[package]]\n' + p for p in out), end='')
