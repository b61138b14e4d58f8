import subprocess
log=subprocess.run("git -C /repo log --format='%h|%s' --reverse adbc3c2..",shell=True,stdout=subprocess.PIPE,text=True).stdout.splitlines()
M={}
def m(prop,*hs):
    for h in hs: M[h]=prop
m("M01","2177e24","f7d4896","47dc683","0ab0e6f","364266f","b455006","3a93cf6","d74c7e1","66b235b","5cd6372","905705a","76703ce","2902a44","e14a32e","88f08b4")
m("R03","d624edf","57e70af","b12bc4b","488b366","b80cbb4")
m("M02","a18c60c","20c27d0","14e0638","149bed7","725a440","0cfeadb","b75f3c9","900d114","554af3d","737a05d","76330f6","78d9c72","1c00d84","33f2038","8869cc0")
m("R01","4201d55","ef850dd")
m("W05","13719e1","3274b0e","f7e2da6","dc78a78","190cd95","7461032","c502fac")
m("M03","08dbd22")
m("T01","f925a97")
m("W01","6d142bd")
m("W02","4640b22")
m("W03","9d6d96d")
m("M05","942274d","04fc29e","a58d615","cce2efd","db7cf38","bad68e2","8bcf613","f22817c","01d9c53","ea61b56","e61b8ef","1f91577","faf6c52")
m("M04","6915489","88e1ab9","94879bf","2ae642a")
m("L01","32bef95")
m("R02","e64909d","4e2308c","6ab5a65","0655110","8611764","bcec7d2")
m("H01","03c1430","a5698c4","e2fe050","b0c4d03","045f520","15338ba","775eff1","7214100","ca765f7","f013d63","a6a694a")
m("I03","4f40867","234fe1b"); m("I01","5e14796"); m("I02","31f829e","bc6c923","05db639","a227ffc","d7132bd")
m("G01","8e5ea92","d00672a","ec87fea","2425333","70e8b49","4450335","b9792d5","37f002a","7b2e15b","c410fd3")
m("I04","f9dccce","6aeaf9c","028c6e5","bec7a71","b5debb6","b5e58e3","89e1150","d11e75a","218e6d4","597b1fe","311c6cd"); m("I05","81c3699","59ebb9e")
m("G01","bde8566"); m("M02","8387bf7"); m("W05","4461c4a")
m("R02","a071ef4","479cd0b","0793b2d","dfa01a8","f31c68c")
m("M02","eb5538b","a304cb7","7a618fa"); m("W05","1a2a448"); m("Q01","189efca","97b431c","8ce341f")
m("M02","b6f3753"); m("I02","b2410f2"); m("G02","5dd70be"); m("G01","0db2d76"); m("M02","6500e94")
import json
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"known_findings.txt"),"w") as f:
    f.write("# Genuine defects of the code under test.  'finding:' lines are still present and are\n# reported as KNOWN-FINDING; 'fixed:' lines were repaired in /repo and suppress nothing.\n")
    for l in log:
        h,s=l.split("|",1)
        if not s.startswith("fix:"): continue
        if h not in M: print("UNMAPPED",h,s); continue
        f.write("fixed: property=%s %s %s\n"%(M[h],h,s[5:]))
