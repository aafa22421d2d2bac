import sys
f='/verif/tools/props.py'
s=open(f).read()
add=open(sys.argv[1]).read()
i=s.rindex("\nopen(os.path.join")
open(f,'w').write(s[:i]+"\n"+add.strip()+"\n"+s[i:])
