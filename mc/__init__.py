"""Bounded-exhaustive model checking of portfolyo (see /verif/DESIGN.md)."""
