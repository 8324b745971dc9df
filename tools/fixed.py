import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","94818e1..HEAD"],capture_output=True,text=True).stdout.strip().splitlines()
prop={"7d26db8":"C16","6fda610":"C08","ae1ac2c":"C04","b41bc14":"C09","50437b4":"C09","23449a3":"C06","17e8209":"C11","fcab2d6":"C09","127e99a":"C10","198d4f1":"C10","2cda5d8":"C10","3afdd9f":"C01","8760754":"C01","0b26147":"C10","2a9f948":"C01","85b0112":"C01","48101a8":"C01","3eefbb4":"C13","452a7b9":"C13","8c8c717":"C11","a90df19":"C08","99a1626":"C05","fc6059d":"C08","25e9fc2":"C08","fd75256":"C10","87804f7":"C08","a3ca5e8":"C08","0ac6282":"C10","918a8c6":"C10","2f3c7e4":"C01","21a4e1b":"C13","cfe778c":"C07","d6d3623":"C14","bda93b7":"C07","173c1f2":"C01","7376014":"C09","09b5ea9":"C14","f4e4ed1":"C16","487c260":"C08","403c4f8":"C08","8b597dc":"C06","83c7e79":"C03","edf5c35":"C13","6864c5a":"C10","8982c70":"C08","1964f61":"C08","c9ee5de":"C08","6d0badf":"C08","371ab28":"C08"}
try: old=json.load(open("/verif/known-findings.json"))
except Exception: old={"findings":[]}
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    fixed.append(f"fixed: property={prop[h]} {h} {s[5:]}")
json.dump({"findings":old["findings"],"fixed":fixed},open("/verif/known-findings.json","w"),indent=1)
