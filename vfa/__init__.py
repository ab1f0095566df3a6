"""vfa: a value-flow analyser for the Python subset used by neocore (see DESIGN.md)."""
