"""Checks that the tools the framework needs are present (nothing is installed or fetched)."""
import shutil, sys
import z3, cvc5
print('z3', z3.get_version_string())
for t in ('clang', 'gcc'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
    print(t, shutil.which(t))
