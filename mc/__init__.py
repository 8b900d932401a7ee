"""Bounded-exhaustive model checking machinery for ExplorerScript (see /verif/DESIGN.md)."""
