"""Static analyser for dyna-pi: see /verif/DESIGN.md."""
