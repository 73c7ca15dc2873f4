"""Property-based testing framework for OpenChemistry/stempy (see DESIGN.md)."""
