import re
t={}
for l in open('/repo/internal/tex2unicode/utf8.go'):
    m=re.match(r'\t\t`(.*)`:\s+(\w+),',l)
    if m: t[m.group(1)]=int(m.group(2),0)
mac={}
for l in open('/repo/macros.go'):
    m=re.match(r'\t\t`(.*)`:\s+builtinMacro\("(\w*)"\)',l)
    if m: mac[m.group(1)]=m.group(2)
out=open('/verif/harness/tables.go','w')
w=out.write
w('''package main

// Reference tables. They are data of the oracles, written down from the LaTeX
// and Unicode mathematics tables and reviewed against HTML's entity names; they
// are not read from the code under test.

// texUnicode holds the Unicode character of each symbol macro.
var texUnicode = map[string]rune{
''')
for k in sorted(t): w('\t`\\%s`: 0x%04x,\n'%(k,t[k]))
w('}\n\n// macroArity holds the arguments (a: mandatory, o: optional) of the commands\n// that are not in texUnicode, or take arguments.\nvar macroArity = map[string]string{\n')
for k in sorted(mac):
    if mac[k] or k[1:] not in t: w('\t`%s`: "%s",\n'%(k,mac[k].lower()))
w('}\n\n// symbol classes.\nvar refClasses = map[string][]string{\n')
src=open('/repo/mtex/symbols/symbols_gen.go').read()
for m in re.finditer(r'\t(\w+) = NewSet\(\n(.*?)\n\t\)',src,re.S):
    items=sorted(re.findall(r'"((?:[^"\\]|\\.)*)"',m.group(2)))
    w('\t"%s": {\n'%m.group(1))
    for i in items: w('\t\t"%s",\n'%i)
    w('\t},\n')
w('}\n')
out.close()
