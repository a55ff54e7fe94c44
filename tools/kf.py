KNOWN33={'counts': [[1, 1]], 'a': {'refs': [{'ds': 0, 'w': 1, 'split_part': None, 'subflavors': None, 'subflavor': None, 'mult': None, 'join': None, 'joiner': 'Pair'}], 'train': False, 'split': 'train', 'size': 1, 'drop': False, 'pack': 1, 'shuffle': None, 'epoch': 0, 'limit': None, 'max_samples': None, 'mult': 1, 'parallel': None, 'exclude': [], 'nw': 0, 'world': 1, 'rank': 0}, 'changed': 'drop', 'kind': 'plain', 'seed': 0, 'loader': True, 'read': 1, 'known': 1, 'b': {'refs': [{'ds': 0, 'w': 1, 'split_part': None, 'subflavors': None, 'subflavor': None, 'mult': None, 'join': None, 'joiner': 'Pair'}], 'train': False, 'split': 'train', 'size': 1, 'drop': False, 'pack': 1, 'shuffle': None, 'epoch': 0, 'limit': None, 'max_samples': None, 'mult': 1, 'parallel': None, 'exclude': [], 'nw': 0, 'world': 1, 'rank': 0}}
import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--reverse","--oneline","868cd7d..HEAD"],capture_output=True,text=True).stdout.splitlines()
prop={}
def a(p,*hs):
    for h in hs: prop[h]=p
a("P08","a1ea255","ab57894"); a("P12","cce14f3","36db1bd"); a("P13","a4638df"); a("P11","65f590a")
a("P04",*"9cc9285 d49cf82 abfa9d8 b56eb41 fe0d9c3 40df982 a74de61 8095d17 b25c819".split())
a("P06","d438006"); a("P18","783fe68"); a("P15","b034701")
a("P05",*"e23fd5b fd8b216 1855e29 efbfcb4 4d7fa5c f1f7d2c f62396c 0981628 a77088f".split())
a("P17","0b50d1b"); a("P23","cdcb684","c1035d5"); a("P24",*"d0b9611 039127d 48c42e3 781f06e 7a10d15".split())
a("P27","3f0e868"); a("P18","5722258"); a("P06","4352bc2"); a("P19","c179e58"); a("P20","b014806","2627fae","9cac8b7")
a("P16","686e04e","acfdd6b"); a("P25","0178aba","51ac3fd","5013a6a","be7824f")
a("P29","073d8ad"); a("P04","04d50be")
a("P28","ce35ba1")
a("P30",*['82ffa3d', 'f9a92f5', 'c023285', '2784920', 'bbde983', '0efaa0e', '0679d8d', 'db48612'])
a("P31",*['6da79cb', 'eeb56a9', 'ca2a609', 'a898ad0', '6de9e6f', 'c6ec4f8', '6491093', 'd9e7c0e'])
a("P33",*['470bfa6', '4f02f01', 'f36ff4b'])
a("P34","b2ab7d7","f47717c","a34a84a"); a("P06","3ed97fb")
a("P35","307eaf4")
a("P36","baf82a0"); a("P17","38f02f3")
a("P24","f228d7f")
a("P01","0f5bd3d")
out=[dict(id="P25-rot-odd-expand",property="P25",sub="merge",status="open",
 case={"h":8,"w":9,"steps":[{"kind":"rot","deg":[90,90],"expand":True}],"interp":"bilinear","fill":0,"tensor":True,"seed":0,"known":1},
 what="tensor input, RandomRotation by exactly 90 or 270 degrees with expand and odd height+width: torchvision's tensor path returns one row/column more than its PIL path; the merged transform follows the PIL path")]
out.append(dict(id="P33-byte-range",property="P33",sub="disk",status="open",case=KNOWN33,
 what="config() of a dataset contains the byte range of each part of a shard only after the part was opened in the same process, so the configuration of a loader changes by being read (byte_offset/byte_size null before)"))
for l in log:
    h,s=l.split(" ",1)
    p=prop.pop(h)
    out.append(dict(id=f"fixed-{h}",property=p,status="fixed",commit=h,what=f"fixed: property={p} {h} {s[5:]}"))
assert not prop,prop
json.dump(dict(findings=out),open("/verif/known_findings.json","w"),indent=1)
