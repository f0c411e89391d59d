"""Property-based verification of OccuProb (see /verif/DESIGN.md)."""
