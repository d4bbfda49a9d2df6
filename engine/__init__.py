"""Symbolic execution engine for the real PyNite sources (see /verif/DESIGN.md)."""
