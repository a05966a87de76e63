#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vt
MODS = {"C03": "scoping", "C04": "scoping", "C05": "controlflow", "C07": "typing_", "C08": "typing_", "C09": "literals", "C01": "modules_", "C02": "modules_", "C06": "modules_", "C19": "modules_", "C11": "grammar", "C12": "grammar", "C10": "lexing", "C13": "formatting", "C14": "formatting", "C18": "diagnostics", "C17": "mdtests", "C15": "projects", "C16": "scaffold_", "C20": "vm", "C21": "vm", "C22": "meaning", "C23": "meaning", "C24": "codec", "C28": "typenames", "C29": "total"}
def main():
    pid = sys.argv[1]
    try:
        rep = vt.Report(pid)
        importlib.import_module(MODS[pid]).check(pid, rep)
        sys.exit(rep.finish())
    except vt.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print("CHECK-ERROR property=%s internal" % pid); sys.exit(2)
main()
