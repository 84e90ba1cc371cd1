# scratch: splits a stream of "##### id" into .bug files
import sys,re
t=sys.stdin.read()
for m in re.finditer(r"##### (\S+)\n(.*?)(?=^##### |\Z)",t,re.S|re.M):
    open(m.group(1)+".bug","w").write(m.group(2))
