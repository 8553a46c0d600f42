"""Writes the "fixed" entries of known-findings.json from /repo's fix commits (run by hand, not by a check)."""
import json, subprocess
M = {
 "C27": "238abb5 2856e4d f91c0cd f992f5d",
 "C22": "2969734 24869d6 662d442 f30d52b a20e31f",
 "C24": "c099873 0a4b8ba 07ca72e c6e6402 ec44ded 30d3b40",
 "C17": "3ba81ed 311b346 2747585 e0f08fe af19867",
 "C20": "8ff1e4d a9ae052 2065d62 61a7b00 7734de3 50a9a94 c857f2c",
 "C26": "8626e31",
 "C19": "6eca70e 0a40f8c",
 "C15": "544a97a ec99db1",
 "C14": "8fb03ba",
 "C02": "448d289 8b08c33 fe1b41a fe2fd07 9390291 452b6b4 47dc649 3b543b1 a140253",
 "C04": "cb96b9b 52b5fd0 a0e04c0",
 "C21": "e977376 657c7af e074a62 32ba13f 8184649 678c92c ee2195c 5b46991 b2b692a",
 "C03": "cbd41cd 0cbeb04 31a3c05 b71abff 0a505ab 5757b54 b24115c 028d5b1 b205304 8d5a7e5 31b435f 6be85fa c45c1f9 21a2eeb 5cf133a 46046d1 8520c26",
 "C12": "a7942fb 0f5564e",
 "C13": "519ab3d 54f9764",
 "C11": "51f17f4 97085b9 6eeaa41 2660f91 d771027 3621dd6",
 "C08": "26a5858 f88d70b 27255d3",
 "C10": "0cd3bb1",
 "C06": "c47c33f 8c20e46 4761750",
 "C07": "ff14733 d87829b",
 "C18": "b88df0f d1f0bfb 2bbd474 e9cc6cd 27cf69f",
 "C16": "44d6763",
 "C01": "7b7a462 88f7b4a 4c41f19",
 "C05": "f24194d",
 "C25": "ea0f4b4",
 "C28": "388c1e2 ba2b984",
}
of = {c: p for p, l in M.items() for c in l.split()}
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "eb4e781..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    assert s.startswith("fix: "), l
    out.append("fixed: property=%s %s %s" % (of.pop(h), h, s[5:]))
assert not of, of
json.dump({"findings": [], "fixed": out}, open("/verif/known-findings.json", "w"), indent=1)
open("/verif/known-findings.json", "a").write("\n")
print(len(out))
