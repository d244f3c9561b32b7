"""Static analyser for rkstiff: gated value graphs over the syntax trees of /repo (see /verif/DESIGN.md)."""
