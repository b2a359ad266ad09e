"""Nothing to build ahead: checks compile what they need from the working tree. Verifies that the tools are there."""
import shutil, sys
need = ['clang++', 'g++', 'cvc5', 'z3', 'llvm-link', 'opt']
miss = [t for t in need if not (shutil.which(t) or shutil.which(t + '-18'))]
import z3  # noqa: F401
print('missing: %s' % miss if miss else 'ok')
sys.exit(1 if miss else 0)
