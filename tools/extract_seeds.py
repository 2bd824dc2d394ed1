# One-off: extract SQL samples from the repository's test tables into corpus/seeds.json
import re,json,glob
def rust_str(s,i):
    # s[i]=='"' ; returns (value, end)
    out=[];i+=1
    while s[i]!='"':
        if s[i]=='\\':
            c=s[i+1]
            if c=='\n':
                i+=2
                while s[i] in ' \t\n\r': i+=1
                continue
            if c=='u':
                m=re.match(r'\{([0-9a-fA-F]+)\}',s[i+2:]); out.append(chr(int(m.group(1),16))); i+=2+m.end(); continue
            if c=='x': out.append(chr(int(s[i+2:i+4],16))); i+=4; continue
            out.append({'n':'\n','t':'\t','r':'\r','\\':'\\','"':'"',"'":"'",'0':'\0'}[c]); i+=2
        else: out.append(s[i]); i+=1
    return ''.join(out),i+1
ok=[];err=[]
for f in sorted(glob.glob('/repo/src/parser/tests/*.rs')):
    s=open(f).read()
    for m in re.finditer(r'(Success|Error)TestCase::new\(\s*',s):
        if s[m.end()]=='"': v,_=rust_str(s,m.end())
        elif s[m.end()]=='r':
            mm=re.match(r'r(#*)"(.*?)"\1',s[m.end():],re.S); v=mm.group(2)
        else: print('?',s[m.end():m.end()+30]); continue
        (ok if m.group(1)=='Success' else err).append(v)
lex=[]
s=open('/repo/src/lexer/tests.rs').read()
for m in re.finditer(r'code: |TestCase::new\(\s*',s):
    if s[m.end()]=='"': lex.append(rust_str(s,m.end())[0])
json.dump({'ok':sorted(set(ok)),'err':sorted(set(err)),'lex':lex},open('/verif/corpus/seeds.json','w'),indent=0,ensure_ascii=False)
print(len(set(ok)),len(set(err)),len(lex))
