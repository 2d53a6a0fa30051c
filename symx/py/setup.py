"""setup_cmd: builds both worlds once from the committed files and /repo's current tree, offline"""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import world

for c in (['z3-new', '--version'], ['cvc5', '--version'], ['cargo', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
w = world.build()
print('built', w['nat'])
