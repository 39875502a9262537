"""Bounded exhaustive exploration of flamingpy (see DESIGN.md)."""
