"""Deterministic simulation of krooonal/col_gen_estimator (see /verif/DESIGN.md)."""
