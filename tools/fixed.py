#!/usr/bin/env python3
"""Writes the "fixed:" lines of known-findings.txt from the fix commits and the table below."""
import subprocess, os, re
MAP = {
"08c2e61":"C20","368295c":"C15","ca7c6b4":"C15","a8b93b4":"C20",
"1f4d509":"C02","3618230":"C02","76587b8":"C03",
"1bccfa9":"C11","927d1a5":"C06","5fcb154":"C06","6cbb0f7":"C06","809889b":"C08","9c20dc7":"C09",
"3485e45":"C12","381b41c":"C12","a0eb6c8":"C12","549cc52":"C19","5a9bcfa":"C19","bbd96c4":"C10","4311e5b":"C10",
"6cbc84b":"C12","b4405f2":"C12","2c279bb":"C12","cab3ee4":"C12","80cf296":"C12","ad2f978":"C13","fe8ea77":"C13",
"fe339cc":"C14","cf88e6c":"C17","2ec2a54":"C14","ca16f41":"C14","48383f2":"C14","7bcbc7a":"C18","be52c96":"C11","5e7717f":"C11",
"eb830da":"C12","b676f8e":"C14","a74f038":"C15","b73a5d5":"C15","787190f":"C15","15b6e2e":"C15","21896a7":"C15","0c7fe1e":"C15","1abb906":"C12",
"99d07fa":"C20","47ff846":"C20","9c34a71":"C21","a1fd03a":"C20","ca87a4c":"C20","f8ce88d":"C20","638a6ee":"C20","833bea9":"C14",
"7540cf0":"C22","f4d53d7":"C22","692c513":"C22","3acef3f":"C22","f27fb09":"C23","e866502":"C22",
"b08778b":"C24","65af919":"C24","ec1db70":"C24","e60609e":"C24","0784fb6":"C11",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, "known-findings.txt")
keep = [l for l in open(path) if not l.startswith("fixed:")]
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ",1)
    if not s.startswith("fix:"): continue
    p = MAP.get(h[:7])
    if p: out.append(f"fixed: property={p} {h} {s[5:]}\n")
    elif "build against" not in s: print("unmapped", l)
open(path,"w").writelines(keep+out)
