"""record.py MODULE --part K --parts N --tier T --seed S --out FILE [--inp FILE]"""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('module'); ap.add_argument('--part', type=int, default=0); ap.add_argument('--parts', type=int, default=1)
ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', default='1'); ap.add_argument('--out'); ap.add_argument('--inp', default='')
a = ap.parse_args()
mod = importlib.import_module(a.module)
import common
out = common.Out()
mod.record(out, a.part, a.parts, a.tier, a.seed, a.inp)
out.dump(a.out)
