"""save_baseline.py MODULE...: record the shape of the functions under contract (used to rename locals after a refactoring)"""
import sys,importlib,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+'/vt',V+'/vt/modules']; sys.setrecursionlimit(20000)
from assemble import *
for n in sys.argv[1:]:
    m=importlib.import_module(n); p=Program(m); p.extract('/tmp/vtb_'+n); p.translate(); p.save_baseline(); print(n,len(p.fns),p.err)
