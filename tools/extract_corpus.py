#!/usr/bin/env python3
# One-off: collect djot snippets from the repository's own test inputs into sim/corpus.txt
# (records separated by a line holding only \x1e). The checks never run this; they use the committed file.
import re,glob,os
out=[]
def add(s):
    if s.strip() and len(s)<4000 and '\x1e' not in s and s not in out: out.append(s)
for f in sorted(glob.glob('/repo/tests/html-ut/ut/*.test')):
    fence=0; buf=[]; html=False; ign=False
    for l in open(f).read().split('\n'):
        m=re.fullmatch(r'`{3,}',l)
        if m:
            if fence==0: fence=len(l);buf=[];html=False;continue
            if fence==len(l):
                fence=0; add('\n'.join(buf)+'\n'); continue
        if fence and l=='.': html=True; continue
        if fence and not html: buf.append(l)
def unq(s):
    return bytes(s,'utf-8').decode('unicode_escape').encode('latin-1').decode('utf-8') if '\\' in s else s
for f in ['tests/html.rs','tests/parse_events.rs','src/test_block.rs','src/test_inline.rs','src/lib.rs','src/html.rs']:
    t=open('/repo/'+f).read().replace('/// ','').replace('//\n','\n')
    for m in re.finditer(r'(?:test_html!|test_parse!|let src = |let input = |test_block!|Parser::new)\(?\s*(?:concat!\(([^()]*(?:\([^()]*\)[^()]*)*)\)|("(?:[^"\\]|\\.)*"))',t):
        body=m.group(1) or m.group(2)
        parts=re.findall(r'"((?:[^"\\]|\\.)*)"',body)
        try: add(''.join(unq(re.sub(r'\\\n\s*','',p)) for p in parts))
        except Exception: pass
for f in sorted(glob.glob('/repo/bench/input/*.dj'))+sorted(glob.glob('/repo/tests/afl/in/*')):
    try: add(open(f).read())
    except Exception: pass
open('/verif/sim/corpus.txt','w').write('\n\x1e\n'.join(out))
print(len(out),sum(map(len,out)))
