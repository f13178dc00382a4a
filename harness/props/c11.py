"""Popping a class removes its tiers, joins the levels around it, and leaves the rest alone."""
from core import Part
from props.c10 import case_, check

PARTS = [Part("pop", lambda: case_(("pop",)), check, 2500, 50000,
              "a class was popped from nested tiers of several intervals"),
         Part("mixed", lambda: case_(("pop", "interleave", "interleave")), check, 2500, 50000,
              "a class was popped or interleaved on nested tiers of several intervals")]
ASSUMPTIONS = ["the textgrid is tight (cleanup was called after any edits)"]
