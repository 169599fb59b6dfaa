"""writes known_findings.json: open findings (none) and the repaired defects,
read from the fix: commits of /repo (run by hand)"""
import json
import os
import subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """47b395b C12|8133fe4 C06|e561128 C04|20f36ef C06|0044e09 C06|95d3228 C06|2a2ee2e C06|a055dfd C06|887c4af C08|4da7d26 C08|6e68934 C06|f20274a C06|ab177aa C03|073b8f0 C06|f1c4755 C08|1d09257 C08|35820fc C06|4cc9d29 C06|452dbcb C06|a036c37 C06|d8b9791 C08|d94af97 C08|a5173df C06|5f912ce C12|78d4023 C11|4e169a2 C08|8d051a1 C06|7479766 C06|48fd1fa C06|4514b0b C06|d46aa22 C06|d40a89b C05|28e7598 C06|67b6030 C13|b96e33a C13|903533f C24|1a0e3b9 C24|7b9cde4 C24|8fb8e28 C18|0fbc0bc C18|d15c865 C17|1151429 C17|94deff0 C08|b885d0a C08|954c580 C02|a468a0b C08|52e3cda C08|6fbf5a5 C05|2e9519c C03|be3e072 C04|2f2479f C02|8fb3fe0 C08|4c3796b C09|4a9b829 C09|6b1c3fb C09|d0b87df C09|f43a82d C09|b99744d C09|65c7a82 C25|4741935 C10|cdd0ef5 C10|4e9976d C14|042dd20 C14|48548b6 C15|c96545a C15|31f1265 C09|e53b9d2 C12|396d4d3 C12|9da0eb7 C16|59b3514 C16|7f3b60d C16|3cd9dac C17|9faa790 C19|58c20d8 C09|7abfb8f C20|1f7d169 C19|8fc9c8a C21|32310cd C23|6b08090 C06|dffd276 C06"""
prop = dict(x.split() for x in MAP.split("|"))
EXTRA = os.path.join(ROOT, "tools", "fixed_extra.txt")
if os.path.exists(EXTRA):
    prop.update(l.split() for l in open(EXTRA) if l.strip())
fixed = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "0dd9590..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        raise SystemExit("not a fix: " + l)
    fixed.append("fixed: property=%s %s %s" % (prop[h], h, s[5:]))
old = {"findings": []}
path = os.path.join(ROOT, "known_findings.json")
if os.path.exists(path):
    old = json.load(open(path))
json.dump({"findings": old["findings"], "fixed": fixed}, open(path, "w"), indent=1)
print(len(fixed))
