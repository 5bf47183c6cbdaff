#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design, the docstrings of the rules and the seeds."""
import glob
import json,ast,os,textwrap
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
extra={
'P01':'Oracle: the table in `spec/` of documented codes. Bounds: chains of three and four keywords are covered per class of keyword, not per keyword. Compile failure of a documented form is a violation.',
'P02':'Oracle: the rules 0-7 -> 3n, 8-15 -> 9(n-8), otherwise 38;5;n, and the published variant names in `skel/ansi256.rs` as the compiler sees them.',
'P03':'Both with and without the binary-only kinds.',
'P04':'Labels are arbitrary texts; the only case split is empty / not empty.',
'P05':'Not covered: parts longer than u16::MAX bytes together (documented limit).',
'P07':'Terminators of an operating system command are BEL, U+0153 and ESC backslash, as documented; the width of a character is whatever unicode-width says.',
'P09':'Environment: any write or flush may fail or be short.',
'P10':'Environment: any line, end of input, read errors.',
'P11':'Finite because options are idempotent or last-one-wins; the abstraction keeps one class of texts per kind of word.',
'P14':'All integer types the conversions accept, including the signed and NonZero ones.',
'P15':'Sequential-consistency reading of the atomics; interleavings are covered because each write is a single read-modify-write whose effect is proved for an arbitrary prior value.',
'P16':'Interleavings: what a path may assume about shared state is only what it observed inside the section it holds.',
'P17':'Interleavings as for P16: the write and the check of the run state must be in the same exclusive section.',
'P18':'Locks taken by third-party code and by `print!` (stdout, stderr) are included.',
'P19':'',
'P20':'Interleavings: publish-before-request is what makes any schedule of requests and ticks end with a repaint.',
'P21':'',
'P23':'The width is any byte; the counter any pair done <= total; the clock and counts any of their formatted lengths.',
'P24':'Unwinding out of calls the ticker makes is included.',
'P29':'Running `push_msg` exactly takes too long for a check; pending requests are explored by class.',
'P30':'What the fitted text looks like beyond its first line is P08 and P40.',
}
out=[]
na=json.load(open('tools/not_applicable.json'))
tech=json.load(open('tools/technique.json'))
for l in open('properties.jsonl'):
    p=json.loads(l); i=p['id']
    f='fa/rules/%s.py'%i.lower()
    out.append('### %s -- %s'%(i,p['title']))
    if i in na or not os.path.exists(f): t='Not applicable: '+na.get(i,'no rule is built for it yet.')
    else:
        d=ast.get_docstring(ast.parse(open(f).read()))
        t=' '.join(d.split())+(' '+extra.get(i,'')).rstrip()
        t+=' (%s.)'%tech[i]['technique']
    out.append(textwrap.fill(t,120,break_long_words=False,break_on_hyphens=False)); out.append('')
t=open('tools/design/head.md').read()+'\n'.join(out)+'\n'+open('tools/design/tail.md').read()
rows=['| seed | caught by | what breaks |','|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); rows.append('| %s | %s | %s |'%(d.split('/')[1],m['property'],m['what_it_breaks'].replace('|','\\|')))
t=t.replace('@SEEDS@','\n'.join(rows))
na=json.load(open('tools/not_applicable.json'))
t=t.replace('@NA@','\n'.join('* **%s**: %s'%(k,v) for k,v in sorted(na.items())))
sw='tools/design/sweep.md'
t=t.replace('@SWEEP@',open(sw).read() if os.path.exists(sw) else '(sweep pending)')
open('DESIGN.md','w').write(t)
