"""Bounded model checking of graphicle: see /verif/DESIGN.md."""
