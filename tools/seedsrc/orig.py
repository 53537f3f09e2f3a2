import subprocess,glob,re,os
for d in sorted(glob.glob('/verif/seeded/*')):
    bad=[]; f=None
    for l in open(d+'/patch.diff'):
        if l.startswith('+++ b/'): f=l[6:].strip()
        if l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1)); continue
        if l.startswith(('+','---','diff','index')): continue
        if l.startswith('-'):
            o=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{n},{n}','e0ed29a..HEAD','--',f],capture_output=True,text=True).stdout
            if not o.startswith('^'): bad.append(o.strip())
        n+=1
    print(os.path.basename(d), bad or 'orig')
