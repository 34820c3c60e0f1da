"""Static analyser specific to the pythagoras code base (see DESIGN.md)."""
