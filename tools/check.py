#!/usr/bin/env python3
"""check.py <property>: decides one property; see DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

def main():
    prop = sys.argv[1]
    if prop == "C01":
        import total_checks
        total_checks.run(prop)
    elif prop in ("C02", "C03", "C04", "C05", "C06", "C07"):
        import engine_checks
        engine_checks.run(prop)
    elif prop == "C08":
        import lex_checks
        lex_checks.run(prop)
    elif prop == "C09":
        import incr_checks
        incr_checks.run(prop)
    elif prop == "C10":
        import text_checks
        text_checks.run(prop)
    elif prop in ("C11", "C12"):
        import tree_checks
        tree_checks.run(prop)
    elif prop == "C13":
        import gen_checks
        gen_checks.run(prop)
    elif prop in ("C14", "C15", "C16", "C20"):
        import sem_checks
        sem_checks.run(prop)
    elif prop == "C17":
        import action_checks
        action_checks.run(prop)
    elif prop in ("C18", "C21"):
        import rust_checks
        rust_checks.run(prop)
    elif prop == "C23":
        import refuse_checks
        refuse_checks.run(prop)
    elif prop == "C24":
        import reuse_checks
        reuse_checks.run(prop)
    elif prop == "C25":
        import list_checks
        list_checks.run(prop)
    elif prop == "C22":
        import ast_checks
        ast_checks.run(prop)
    elif prop == "C19":
        import index_checks
        index_checks.run(prop)
    else:
        common.tool_fail("no check for " + prop)

main()
