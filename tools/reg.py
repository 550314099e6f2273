"""usage: reg.py ID "check_x.py" technique note  (register a check in properties_data.py)"""
import sys
pid, check, tech, note = sys.argv[1:]
p='properties_data.py'
s=open(p).read()
i=s.index(f'"id": "{pid}"'); j=s.index('"na": TODO,', i)
assert '"id":' not in s[i+5:j]
s=s[:j]+f'"check": "{check} {pid}",\n        "technique": "{tech}",\n        "level_note": (\n            "{note}"\n        ),'+s[j+len('"na": TODO,'):]
open(p,'w').write(s)
