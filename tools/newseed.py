"""newseed.py ID PROP FILE PKG : reads from stdin: old text, a line '=====', new text, '=====', needs, '=====', breaks, '=====', demo.rs"""
import sys, os, json, subprocess
id, prop, file, pkg = sys.argv[1:5]
parts = sys.stdin.read().split("\n=====\n")
old, new, needs, breaks, demo = parts[:5]  # a sixth part: the library's lib.rs, for a demo which compiles other files of /repo by path
old = old.lstrip("\n")
p = "/repo/" + file
s = open(p).read()
assert s.count(old) == 1, f"{s.count(old)} occurrences"
d = f"/verif/seeded/{id}"
os.makedirs(d, exist_ok=True)
open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
sh = open("/verif/tools/demo_core.sh").read()
lib = {"seafowl": "src/lib.rs", "datafusion-remote-tables": "datafusion_remote_tables/src/lib.rs", "object_store_factory": "object_store_factory/src/lib.rs", "seafowl_untested": "seafowl_untested/tests/compiles.rs"}[pkg]
if pkg == "seafowl_untested":
    # an integration test: its own crate root, so demo.rs may also compile a file of /repo by path
    sh = sh.replace("mod planted_demo;", "mod planted_demo;\\n#[allow(unused_imports)]\\nuse planted_demo::*;").replace("'\\n#[cfg(test)]", "'#![feature(let_chains)]\\n#![allow(dead_code, unused)]\\n#[cfg(test)]").replace(">> @LIB@", "> @LIB@")
if len(parts) > 5:
    open(d + "/lib.rs", "w").write(parts[5].strip() + "\n")
    sh = sh.replace("printf ", 'cp "$here/lib.rs" seafowl_untested/src/lib.rs\nprintf ', 1)
open(d + "/demo.sh", "w").write(sh.replace("@LIB@", lib).replace("@PKG@", pkg))
os.chmod(d + "/demo.sh", 0o755)
open(d + "/demo.rs", "w").write(demo.strip() + "\n")
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(d + "/meta.json", "w"), indent=1)
print(id, "written")
