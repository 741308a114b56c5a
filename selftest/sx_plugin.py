""" pytest plugin: runs the repository's own tests on the instrumented package (translator validation). """
import os
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symex import rewrite  # noqa: E402
rewrite.install({'dessia_common': '/repo'})
