import sys,os
R,D=sys.argv[1:3]; os.environ['VP_REPO']=R; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode=True
import vpb; vpb.make_overlay(D)
