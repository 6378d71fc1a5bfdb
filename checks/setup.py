"""Builds the extractor and warms the fact cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
print(facts.analyzer())
try:
    facts.Facts()
except facts.Broken as e:
    print('facts not ready:', e)
